/* P38: type computations. The computations and their results are written by
   gen_p38.py, anew for every seed; what the compiler makes of them is observed
   in the running program, so that a wrong result is reported and not a build error.
   VM-VARIANTS: asan plain
   VM-SAN-FLAGS: -O0 */
#include "vm.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sharemind/AlwaysFalse.h>
#include <sharemind/AlwaysFalsePred.h>
#include <sharemind/AlwaysFalseType.h>
#include <sharemind/AlwaysFalseTypePred.h>
#include <sharemind/AlwaysTrue.h>
#include <sharemind/AlwaysTruePred.h>
#include <sharemind/AlwaysTrueType.h>
#include <sharemind/AlwaysTrueTypePred.h>
#include <sharemind/Concepts.h>
#include <sharemind/CopyCv.h>
#include <sharemind/DecayTupleSize.h>
#include <sharemind/Detected.h>
#include <sharemind/EnumConstant.h>
#include <sharemind/FunctionTraits.h>
#include <sharemind/integer_demotion.h>
#include <sharemind/IsReferenceable.h>
#include <sharemind/IsSwappable.h>
#include <sharemind/Iterator.h>
#include <sharemind/PackedRawData.h>
#include <sharemind/RemoveCvref.h>
#include <sharemind/SizeOfTypes.h>
#include <sharemind/StripAndDecay.h>
#include <sharemind/StripReferenceWrapper.h>
#include <sharemind/TemplateAll.h>
#include <sharemind/TemplateAny.h>
#include <sharemind/TemplateAppend.h>
#include <sharemind/TemplateAppendTypes.h>
#include <sharemind/TemplateCommonPrefixTypes.h>
#include <sharemind/TemplateCondAppend.h>
#include <sharemind/TemplateCondAppendType.h>
#include <sharemind/TemplateContainsType.h>
#include <sharemind/TemplateCopyParams.h>
#include <sharemind/TemplateCountTypes.h>
#include <sharemind/TemplateFilter.h>
#include <sharemind/TemplateFilterTypes.h>
#include <sharemind/TemplateFirstType.h>
#include <sharemind/TemplateGetParam.h>
#include <sharemind/TemplateGetTypeParam.h>
#include <sharemind/TemplateInstantiateWithTypeParams.h>
#include <sharemind/TemplateInverseCondAppend.h>
#include <sharemind/TemplateInverseCondAppendType.h>
#include <sharemind/TemplateInverseFilter.h>
#include <sharemind/TemplateInverseTypeFilter.h>
#include <sharemind/TemplateLastType.h>
#include <sharemind/TemplateNone.h>
#include <sharemind/TemplatePrefixTypes.h>
#include <sharemind/TemplatePrepend.h>
#include <sharemind/TemplatePrependTypes.h>
#include <sharemind/TemplateSubTypes.h>
#include <sharemind/TemplateSuffixTypes.h>
#include <sharemind/TypeIdentity.h>
#include <sharemind/Void.h>
#include <tuple>
#include <vector>

namespace p38 {
using namespace sharemind;
struct T0 {}; struct T1 {}; struct T2 {}; struct T3 {}; enum class E : short { A, B, C };
struct Root {}; struct Left : virtual Root {}; struct Right : virtual Root {}; struct Bottom : Left, Right {};
struct Secretly : private Root {}; struct Plain {}; struct Once : Plain {}; struct Again : Plain {}; struct Twice : Once, Again {}; union Union { int a; }; struct Explicit { explicit Explicit(T0); };
struct Boolean { operator bool() const; };
struct NoCopyHash { NoCopyHash(NoCopyHash const &) = delete; std::size_t operator()(int) const; }; struct TwoFacedHash { std::size_t operator()(int) const; unsigned operator()(int); };
using FunctionPointer = void (*)();
template <typename ...> struct ListA; template <typename ...> struct ListB;
template <typename T> struct List { template <T ...> struct Of; template <T ...> struct Other; };
struct WithType { using Type = char; }; struct WithT0 { using Type = T0; }; struct WithValue { static long value; }; struct WithBoth { using Type = char; static long value; };
template <typename T> using TypeOf = typename T::Type; template <typename T> using ValueOf = decltype((T::value)); template <typename T, typename U> using Both = decltype(static_cast<typename T::Type>(U::value));
struct NarrowHash { unsigned operator()(int) const; }; struct MutableHash { std::size_t operator()(int); }; struct FixedHash { std::size_t operator()(int) const; }; struct LvalueHash { std::size_t operator()(int &) const; };
struct Nullable { Nullable(); Nullable(std::nullptr_t); Nullable & operator=(std::nullptr_t); operator bool() const; };
bool operator==(Nullable const &, Nullable const &); bool operator!=(Nullable const &, Nullable const &); bool operator==(Nullable const &, std::nullptr_t); bool operator!=(Nullable const &, std::nullptr_t); bool operator==(std::nullptr_t, Nullable const &); bool operator!=(std::nullptr_t, Nullable const &);
struct Row { char const * text; bool holds; };
struct RowSet { char const * name; Row const * begin; std::size_t n; };
#include "types.inc"
}
VM_SCENARIO(computations, "asan plain", 100, 100, 1, 1) {
    vm::runCases([](vm::Rng &, std::uint64_t i) {
        using namespace p38; std::size_t const n = sizeof(rowSets) / sizeof(RowSet); if (i >= n) return; RowSet const & s = rowSets[i]; vm::describe(s.name);
        for (Row const * t = s.begin; t != s.begin + s.n; ++t) { VM_CHECK(t->holds, s.name, "it does not hold that %s", t->text); vm::event("computations"); vm::signature(vm::hashStr(t->text)); }
        vm::event(s.name, s.n);
    });
}
