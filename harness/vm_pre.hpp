/* Included before everything else: the std headers that some of the headers
   under test use without including them (harmless for those that do). */
#include <algorithm>
#include <limits>
#include <memory>
#include <string>
#include <utility>
