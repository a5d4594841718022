//! A stand-in curve: the sixteen points (16 k, 1), k = 1..15, and the identity (k = 0) satisfy its equation over
//! bytes.  A point is encoded as the byte k, followed by its complement when uncompressed.
use crate::w::W;
use ark_ec::short_weierstrass::*;
use ark_ec::CurveConfig;
use ark_serialize::*;

macro_rules! curve {
    ($n:ident, $tag:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Default)]
        pub struct $n;
        impl CurveConfig for $n {
            type BaseField = W;
            type ScalarField = W;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: W = W(1);
        }
        impl SWCurveConfig for $n {
            const COEFF_A: W = W(0);
            const COEFF_B: W = W(1);
            const GENERATOR: Affine<$n> = Affine::new_unchecked(W(16), W(1));
            fn is_in_correct_subgroup_assuming_on_curve(_: &Affine<Self>) -> bool {
                true
            }
            fn serialize_with_mode<Wr: Write>(p: &Affine<Self>, mut w: Wr, c: Compress) -> Result<(), SerializationError> {
                let k = $tag | (p.x.0 >> 4);
                match c {
                    Compress::Yes => w.write_all(&[k])?,
                    Compress::No => w.write_all(&[k, !k])?,
                }
                Ok(())
            }
            fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, _: Validate) -> Result<Affine<Self>, SerializationError> {
                let mut b = [0u8; 1];
                r.read_exact(&mut b)?;
                let k = b[0];
                // anything that is not this curve's encoding of a point becomes a value no point has
                let mut bad = k & 0xf0 != $tag;
                if let Compress::No = c {
                    r.read_exact(&mut b)?;
                    bad |= b[0] != !k;
                }
                Ok(Affine { x: W(k << 4), y: W(if bad { 7 } else { 1 }), infinity: k == $tag })
            }
            fn serialized_size(c: Compress) -> usize {
                match c {
                    Compress::Yes => 1,
                    Compress::No => 2,
                }
            }
        }
    };
}
curve!(K0, 0x20u8);
curve!(K1, 0x40u8);
pub type P0 = Affine<K0>;
pub type P1 = Affine<K1>;
/// any point
pub fn pt<C: SWCurveConfig<BaseField = W>>() -> Affine<C> {
    let k: u8 = kani::any();
    kani::assume(k < 16);
    Affine { x: W(k << 4), y: W(1), infinity: k == 0 }
}
/// the identity, or any other point
pub fn pt_is<C: SWCurveConfig<BaseField = W>>(zero: bool) -> Affine<C> {
    if zero {
        return Affine { x: W(0), y: W(1), infinity: true };
    }
    let k: u8 = kani::any();
    kani::assume(k < 16 && k > 0);
    Affine { x: W(k << 4), y: W(1), infinity: false }
}
pub fn pts<C: SWCurveConfig<BaseField = W>>(n: usize) -> Vec<Affine<C>> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(pt::<C>());
    }
    v
}
pub fn eq<C: SWCurveConfig<BaseField = W>>(p: &Affine<C>, q: &Affine<C>) -> bool {
    (p.infinity & q.infinity) | ((p.infinity == q.infinity) & (p.x.0 == q.x.0) & (p.y.0 == q.y.0))
}
pub fn eqs<C: SWCurveConfig<BaseField = W>>(p: &[Affine<C>], q: &[Affine<C>]) -> bool {
    if p.len() != q.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..p.len() {
        ok = ok & eq(&p[i], &q[i]);
    }
    ok
}
pub fn sc() -> W {
    W(kani::any())
}
/// A bounded buffer.
pub struct Buf<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
    pub pos: usize,
}
impl<const N: usize> Buf<N> {
    pub fn new() -> Self {
        Buf { b: [0; N], n: 0, pos: 0 }
    }
}
impl<const N: usize> Write for Buf<N> {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        let _ = self.write_all(x);
        Ok(x.len())
    }
    fn write_all(&mut self, x: &[u8]) -> std::io::Result<()> {
        for i in 0..x.len() {
            self.b[self.n + i] = x[i];
        }
        self.n += x.len();
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<const N: usize> Read for Buf<N> {
    fn read(&mut self, x: &mut [u8]) -> std::io::Result<usize> {
        match self.read_exact(x) {
            Ok(()) => Ok(x.len()),
            Err(_) => Ok(0),
        }
    }
    fn read_exact(&mut self, x: &mut [u8]) -> std::io::Result<()> {
        if self.n - self.pos < x.len() {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        for i in 0..x.len() {
            x[i] = self.b[self.pos + i];
        }
        self.pos += x.len();
        Ok(())
    }
}
