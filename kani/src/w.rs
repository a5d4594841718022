//! Wide integers posing as a field: enough of `ark_ff::Field` for gadgets whose honest assignment is computed
//! with native integer operations (no inversion, no reduction), so that the model checker sees plain bit-vectors.
use ark_ff::fields::*;
use ark_ff::{One, Zero};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt;
use std::ops::*;
use zeroize::Zeroize;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct W(pub u8);

impl fmt::Debug for W {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for W {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl Zeroize for W {
    fn zeroize(&mut self) {
        self.0 = 0
    }
}
impl Zero for W {
    fn zero() -> Self {
        W(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for W {
    fn one() -> Self {
        W(1)
    }
}
impl Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(self.0.wrapping_neg())
    }
}
macro_rules! ops {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
        impl $tr<W> for W {
            type Output = W;
            fn $m(self, o: W) -> W {
                W(self.0.$f(o.0))
            }
        }
        impl<'a> $tr<&'a W> for W {
            type Output = W;
            fn $m(self, o: &W) -> W {
                W(self.0.$f(o.0))
            }
        }
        impl<'a> $tr<&'a mut W> for W {
            type Output = W;
            fn $m(self, o: &mut W) -> W {
                W(self.0.$f(o.0))
            }
        }
        impl $tra<W> for W {
            fn $ma(&mut self, o: W) {
                self.0 = self.0.$f(o.0)
            }
        }
        impl<'a> $tra<&'a W> for W {
            fn $ma(&mut self, o: &W) {
                self.0 = self.0.$f(o.0)
            }
        }
        impl<'a> $tra<&'a mut W> for W {
            fn $ma(&mut self, o: &mut W) {
                self.0 = self.0.$f(o.0)
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign, wrapping_add);
ops!(Sub, sub, SubAssign, sub_assign, wrapping_sub);
ops!(Mul, mul, MulAssign, mul_assign, wrapping_mul);
ops!(Div, div, DivAssign, div_assign, wrapping_div);
impl std::iter::Sum<W> for W {
    fn sum<I: Iterator<Item = W>>(it: I) -> W {
        it.fold(W(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a W> for W {
    fn sum<I: Iterator<Item = &'a W>>(it: I) -> W {
        it.fold(W(0), |a, b| a + b)
    }
}
impl std::iter::Product<W> for W {
    fn product<I: Iterator<Item = W>>(it: I) -> W {
        it.fold(W(1), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a W> for W {
    fn product<I: Iterator<Item = &'a W>>(it: I) -> W {
        it.fold(W(1), |a, b| a * b)
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(impl From<$t> for W { fn from(x: $t) -> W { W(x as u8) } })*};
}
from!(u128, u64, u32, u16, u8, bool);
impl Distribution<W> for Standard {
    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> W {
        unimplemented!()
    }
}
impl CanonicalSerializeWithFlags for W {
    fn serialize_with_flags<Wr: Write, F: Flags>(&self, _: Wr, _: F) -> Result<(), SerializationError> {
        unimplemented!()
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        1
    }
}
impl CanonicalSerialize for W {
    fn serialize_with_mode<Wr: Write>(&self, mut w: Wr, _: Compress) -> Result<(), SerializationError> {
        Ok(w.write_all(&[self.0])?)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        1
    }
}
impl Valid for W {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for W {
    fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        Ok(W(b[0]))
    }
}
impl CanonicalDeserializeWithFlags for W {
    fn deserialize_with_flags<R: Read, F: Flags>(_: R) -> Result<(Self, F), SerializationError> {
        unimplemented!()
    }
}
impl Field for W {
    type BasePrimeField = W;
    type BasePrimeFieldIter = std::iter::Once<W>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = W(0);
    const ONE: Self = W(1);
    fn characteristic() -> &'static [u64] {
        &[]
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        unimplemented!()
    }
    fn from_base_prime_field_elems(_: &[W]) -> Option<Self> {
        None
    }
    fn from_base_prime_field(_: W) -> Self {
        unimplemented!()
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = -*self;
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(_: &[u8]) -> Option<(Self, F)> {
        None
    }
    fn legendre(&self) -> LegendreSymbol {
        unimplemented!()
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!()
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        unimplemented!()
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        unimplemented!()
    }
    fn frobenius_map_in_place(&mut self, _: usize) {}
}

impl FftField for W {
    const GENERATOR: W = W(2);
    const TWO_ADICITY: u32 = 0;
    const TWO_ADIC_ROOT_OF_UNITY: W = W(1);
}
type B1 = ark_ff::BigInteger64;
impl std::str::FromStr for W {
    type Err = ();
    fn from_str(_: &str) -> Result<W, ()> {
        unimplemented!()
    }
}
impl From<B1> for W {
    fn from(b: B1) -> W {
        W(b.0[0] as u8)
    }
}
impl From<W> for B1 {
    fn from(w: W) -> B1 {
        ark_ff::BigInt([w.0 as u64])
    }
}
impl From<num_bigint::BigUint> for W {
    fn from(_: num_bigint::BigUint) -> W {
        unimplemented!()
    }
}
impl From<W> for num_bigint::BigUint {
    fn from(_: W) -> num_bigint::BigUint {
        unimplemented!()
    }
}
impl PrimeField for W {
    type BigInt = B1;
    const MODULUS: B1 = ark_ff::BigInt([251]);
    const MODULUS_MINUS_ONE_DIV_TWO: B1 = ark_ff::BigInt([125]);
    const MODULUS_BIT_SIZE: u32 = 8;
    const TRACE: B1 = ark_ff::BigInt([125]);
    const TRACE_MINUS_ONE_DIV_TWO: B1 = ark_ff::BigInt([62]);
    fn from_bigint(b: B1) -> Option<W> {
        Some(b.into())
    }
    fn into_bigint(self) -> B1 {
        self.into()
    }
}
