use prelude::*;
/// Everything the expansion of `sym_field!` needs in scope.
pub mod prelude {
    pub use crate::sym::{self, FormId};
    pub use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
    pub use rand_core::RngCore;
    pub use real::bn256::Fr as R;
    pub use real::serde::SerdeObject;
    pub use serde;
    pub use std::borrow::Borrow;
    pub use std::cmp::Ordering;
    pub use std::fmt;
    pub use std::iter::{Product, Sum};
    pub use std::ops::*;
    pub use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
}

#[macro_export]
macro_rules! sym_field {
    ($T:ident, $uniform:expr) => {
        /// `n == 0`: the concrete element `c`; otherwise the symbolic form `n`.
        #[derive(Clone, Copy)]
        pub struct $T {
            c: R,
            n: FormId,
        }
        impl $T {
            pub const fn concrete(c: R) -> Self {
                $T { c, n: 0 }
            }
            pub const fn zero() -> Self {
                $T { c: R::zero(), n: 0 }
            }
            pub const fn one() -> Self {
                $T { c: R::one(), n: 0 }
            }
            pub const fn from_raw(v: [u64; 4]) -> Self {
                $T { c: R::from_raw(v), n: 0 }
            }
            pub const fn size() -> usize {
                32
            }
            pub fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
                <Self as PrimeField>::from_repr(*b)
            }
            pub fn to_bytes(&self) -> [u8; 32] {
                <Self as PrimeField>::to_repr(self)
            }
            /// A symbolic variable (or what the current path has put in its place).
            pub fn var(name: &str) -> Self {
                Self::of_form(sym::with(|a| a.var(name)))
            }
            pub fn of_form(f: FormId) -> Self {
                match sym::with(|a| a.as_const(f)) {
                    Some(c) => $T { c, n: 0 },
                    None => $T { c: R::zero(), n: f },
                }
            }
            /// application of an uninterpreted function
            pub fn fun(name: &str, args: &[Self]) -> Self {
                let ids: Vec<FormId> = args.iter().map(|x| x.form()).collect();
                Self::of_form(sym::with(|a| a.fun(name, ids)))
            }
            pub fn form(&self) -> FormId {
                if self.n == 0 {
                    sym::with(|a| a.constant(self.c))
                } else {
                    self.n
                }
            }
            pub fn is_symbolic(&self) -> bool {
                self.n != 0
            }
            pub fn value(&self) -> Option<R> {
                if self.n == 0 {
                    Some(self.c)
                } else {
                    None
                }
            }
            fn zerop(&self) -> bool {
                if self.n == 0 {
                    bool::from(self.c.is_zero())
                } else {
                    sym::with(|a| a.decide_zero(self.n))
                }
            }
            /// same normal form, no path decision taken
            pub fn same(&self, o: &Self) -> bool {
                self.form() == o.form()
            }
            pub fn show(&self) -> String {
                if self.n == 0 {
                    sym::hex(&self.c)
                } else {
                    sym::with(|a| a.show(self.n))
                }
            }
            fn add_(&self, o: &Self) -> Self {
                if self.n == 0 && o.n == 0 {
                    return $T { c: self.c + o.c, n: 0 };
                }
                let (x, y) = (self.form(), o.form());
                Self::of_form(sym::with(|a| a.add(x, y)))
            }
            fn sub_(&self, o: &Self) -> Self {
                if self.n == 0 && o.n == 0 {
                    return $T { c: self.c - o.c, n: 0 };
                }
                let (x, y) = (self.form(), o.form());
                Self::of_form(sym::with(|a| a.sub(x, y)))
            }
            fn mul_(&self, o: &Self) -> Self {
                if self.n == 0 && o.n == 0 {
                    return $T { c: self.c * o.c, n: 0 };
                }
                let (x, y) = (self.form(), o.form());
                Self::of_form(sym::with(|a| a.mul(x, y)))
            }
            fn powu(&self, e: i32) -> Self {
                let x = self.form();
                Self::of_form(sym::with(|a| a.pow(x, e)))
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.show())
            }
        }
        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.show())
            }
        }
        impl Default for $T {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool {
                self.sub_(o).zerop()
            }
        }
        impl Eq for $T {}
        impl std::hash::Hash for $T {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                if self.n == 0 {
                    self.c.to_repr().hash(h)
                } else {
                    sym::unsupported("Hash")
                }
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &Self) -> Ordering {
                if self.n == 0 && o.n == 0 {
                    return self.c.cmp(&o.c);
                }
                if self == o {
                    return Ordering::Equal;
                }
                // an arbitrary but fixed total order on symbolic values
                sym::with(|a| a.cmp_used += 1);
                self.form().cmp(&o.form())
            }
        }
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl From<u64> for $T {
            fn from(v: u64) -> Self {
                $T { c: R::from(v), n: 0 }
            }
        }
        impl From<bool> for $T {
            fn from(v: bool) -> Self {
                $T { c: R::from(v as u64), n: 0 }
            }
        }
        impl From<$T> for [u8; 32] {
            fn from(v: $T) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl<'a> From<&'a $T> for [u8; 32] {
            fn from(v: &'a $T) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl ConstantTimeEq for $T {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl ConditionallySelectable for $T {
            fn conditional_select(a: &Self, b: &Self, ch: Choice) -> Self {
                if bool::from(ch) {
                    *b
                } else {
                    *a
                }
            }
        }
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                $T::zero().sub_(&self)
            }
        }
        impl<'a> Neg for &'a $T {
            type Output = $T;
            fn neg(self) -> $T {
                $T::zero().sub_(self)
            }
        }
        $crate::sym_field!(@op $T, Add, add, add_, AddAssign, add_assign);
        $crate::sym_field!(@op $T, Sub, sub, sub_, SubAssign, sub_assign);
        $crate::sym_field!(@op $T, Mul, mul, mul_, MulAssign, mul_assign);
        impl<T: Borrow<$T>> Sum<T> for $T {
            fn sum<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(Self::zero(), |a, x| a + x.borrow())
            }
        }
        impl<T: Borrow<$T>> Product<T> for $T {
            fn product<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(Self::one(), |a, x| a * x.borrow())
            }
        }
        impl Field for $T {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn random(rng: impl RngCore) -> Self {
                $T { c: R::random(rng), n: 0 }
            }
            fn square(&self) -> Self {
                self.mul_(self)
            }
            fn double(&self) -> Self {
                self.add_(self)
            }
            fn invert(&self) -> CtOption<Self> {
                if self.n == 0 {
                    return self.c.invert().map(|c| $T { c, n: 0 });
                }
                if self.zerop() {
                    return CtOption::new(Self::zero(), Choice::from(0));
                }
                CtOption::new(self.powu(-1), Choice::from(1))
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                if num.n == 0 && div.n == 0 {
                    let (c, r) = R::sqrt_ratio(&num.c, &div.c);
                    (c, $T { c: r, n: 0 })
                } else {
                    sym::unsupported("sqrt_ratio")
                }
            }
            fn sqrt(&self) -> CtOption<Self> {
                if self.n == 0 {
                    self.c.sqrt().map(|c| $T { c, n: 0 })
                } else {
                    sym::unsupported("sqrt")
                }
            }
            fn is_zero(&self) -> Choice {
                Choice::from(self.zerop() as u8)
            }
            fn is_zero_vartime(&self) -> bool {
                self.zerop()
            }
            fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
                self.pow_vartime(exp)
            }
            fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
                if self.n == 0 {
                    return $T { c: self.c.pow_vartime(exp), n: 0 };
                }
                let e = exp.as_ref();
                if e.iter().skip(1).any(|x| *x != 0) || e.is_empty() || e[0] > 1 << 20 {
                    sym::unsupported("pow with a huge exponent")
                }
                self.powu(e[0] as i32)
            }
        }
        impl PrimeField for $T {
            type Repr = [u8; 32];
            const MODULUS: &'static str = R::MODULUS;
            const NUM_BITS: u32 = R::NUM_BITS;
            const CAPACITY: u32 = R::CAPACITY;
            const TWO_INV: Self = $T { c: R::TWO_INV, n: 0 };
            const MULTIPLICATIVE_GENERATOR: Self = $T { c: R::MULTIPLICATIVE_GENERATOR, n: 0 };
            const S: u32 = R::S;
            const ROOT_OF_UNITY: Self = $T { c: R::ROOT_OF_UNITY, n: 0 };
            const ROOT_OF_UNITY_INV: Self = $T { c: R::ROOT_OF_UNITY_INV, n: 0 };
            const DELTA: Self = $T { c: R::DELTA, n: 0 };
            fn from_repr(repr: [u8; 32]) -> CtOption<Self> {
                R::from_repr(repr).map(|c| $T { c, n: 0 })
            }
            fn to_repr(&self) -> [u8; 32] {
                if self.n == 0 {
                    self.c.to_repr()
                } else {
                    sym::unsupported("to_repr")
                }
            }
            fn is_odd(&self) -> Choice {
                if self.n == 0 {
                    self.c.is_odd()
                } else {
                    sym::unsupported("is_odd")
                }
            }
        }
        impl FromUniformBytes<64> for $T {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                let f: fn(&[u8; 64]) -> Self = $uniform;
                f(b)
            }
        }
        impl WithSmallOrderMulGroup<3> for $T {
            const ZETA: Self = $T { c: R::ZETA, n: 0 };
        }
        impl serde::Serialize for $T {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.to_repr().serialize(s)
            }
        }
        impl<'de> serde::Deserialize<'de> for $T {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let b = <[u8; 32]>::deserialize(d)?;
                Option::<$T>::from(<$T as PrimeField>::from_repr(b))
                    .ok_or_else(|| serde::de::Error::custom("not canonical"))
            }
        }
        impl SerdeObject for $T {
            fn from_raw_bytes_unchecked(bytes: &[u8]) -> Self {
                $T { c: R::from_raw_bytes_unchecked(bytes), n: 0 }
            }
            fn from_raw_bytes(bytes: &[u8]) -> Option<Self> {
                R::from_raw_bytes(bytes).map(|c| $T { c, n: 0 })
            }
            fn to_raw_bytes(&self) -> Vec<u8> {
                match self.value() {
                    Some(c) => c.to_raw_bytes(),
                    None => sym::unsupported("to_raw_bytes"),
                }
            }
            fn read_raw_unchecked<T: std::io::Read>(reader: &mut T) -> Self {
                $T { c: R::read_raw_unchecked(reader), n: 0 }
            }
            fn read_raw<T: std::io::Read>(reader: &mut T) -> std::io::Result<Self> {
                Ok($T { c: R::read_raw(reader)?, n: 0 })
            }
            fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                match self.value() {
                    Some(c) => c.write_raw(writer),
                    None => sym::unsupported("write_raw"),
                }
            }
        }
    };
    (@op $T:ident, $Tr:ident, $f:ident, $imp:ident, $TrA:ident, $fa:ident) => {
        impl $Tr<$T> for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                self.$imp(&o)
            }
        }
        impl<'b> $Tr<&'b $T> for $T {
            type Output = $T;
            fn $f(self, o: &'b $T) -> $T {
                self.$imp(o)
            }
        }
        impl<'a> $Tr<$T> for &'a $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                self.$imp(&o)
            }
        }
        impl<'a, 'b> $Tr<&'b $T> for &'a $T {
            type Output = $T;
            fn $f(self, o: &'b $T) -> $T {
                self.$imp(o)
            }
        }
        impl $TrA<$T> for $T {
            fn $fa(&mut self, o: $T) {
                *self = self.$imp(&o)
            }
        }
        impl<'b> $TrA<&'b $T> for $T {
            fn $fa(&mut self, o: &'b $T) {
                *self = self.$imp(o)
            }
        }
    };
}

sym_field!(Fr, |b| Fr { c: R::from_uniform_bytes(b), n: 0 });
sym_field!(Gf, |b| if gf_fresh() {
    Gf::var(&sym::fresh_name("u"))
} else {
    Gf { c: R::from_uniform_bytes(b), n: 0 }
});

thread_local!(static GF_FRESH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// When set, every `Gf::from_uniform_bytes` returns a fresh symbolic variable `u#k`.
pub fn set_gf_fresh(b: bool) {
    GF_FRESH.with(|c| c.set(b))
}
fn gf_fresh() -> bool {
    GF_FRESH.with(|c| c.get())
}
