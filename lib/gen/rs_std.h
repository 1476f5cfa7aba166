// The traits of Rust's standard library that generated headers name; the bindings
// of the standard library themselves are not part of the repository.
#ifndef VP_RS_STD_H_
#define VP_RS_STD_H_
namespace rs::core::cmp { struct Ordering { signed char value; }; struct Eq; struct Ord; struct PartialEq; struct PartialOrd; }
namespace rs::core::iter { struct Iterator; struct ExactSizeIterator; struct DoubleEndedIterator; struct FusedIterator; struct IntoIterator; struct Extend; struct FromIterator; struct Sum; struct Product; struct TrustedLen; }
namespace rs::core::ops {
struct Drop; struct Deref; struct DerefMut; struct Add; struct Sub; struct Mul; struct Div; struct Rem; struct BitAnd; struct BitOr; struct BitXor; struct Shl; struct Shr; struct Neg; struct Not; struct Index; struct IndexMut; struct RangeBounds;
struct AddAssign; struct SubAssign; struct MulAssign; struct DivAssign; struct RemAssign; struct BitAndAssign; struct BitOrAssign; struct BitXorAssign; struct ShlAssign; struct ShrAssign; struct Fn; struct FnMut; struct FnOnce;
}
namespace rs::core::clone { struct Clone; }
namespace rs::core::marker { struct Copy; struct Send; struct Sync; struct Unpin; struct Freeze; struct StructuralPartialEq; struct Sized; struct ConstParamTy_; struct UnsizedConstParamTy; }
namespace rs::core::default_ { struct Default; }
namespace rs::core::fmt { struct Debug; struct Display; struct Write; struct LowerHex; struct UpperHex; struct Binary; struct Octal; struct Pointer; }
namespace rs::core::hash { struct Hash; struct Hasher; }
namespace rs::core::convert { struct From; struct Into; struct AsRef; struct AsMut; struct TryFrom; struct TryInto; }
namespace rs::core::borrow { struct Borrow; struct BorrowMut; }
namespace rs::core::str { struct FromStr; }
namespace rs::core::error { struct Error; }
namespace rs::core::panic { struct UnwindSafe; struct RefUnwindSafe; }
namespace rs::core::future { struct Future; struct IntoFuture; }
namespace rs::core::any_ { struct Any; }
namespace rs::alloc::borrow { struct ToOwned; }
namespace rs::alloc::string { struct ToString; }
#endif
