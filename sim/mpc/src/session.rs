//! One uniform interface over the code under test: (protocol, ring width) -> the real protocol type
//! running on the simulated network. Nothing here computes; it only names the concrete types.
use crate::simnet::SimNet;
use iris_mpc::prelude::*;
use plain_reference::IrisCodeArray;
use rand::RngCore;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Proto {
    Aby3,
    MalAby3,
    SpdzWise,
    Swift3,
}
impl Proto {
    pub const ALL: [Proto; 4] = [Proto::Aby3, Proto::MalAby3, Proto::SpdzWise, Proto::Swift3];
    pub fn name(self) -> &'static str {
        match self {
            Proto::Aby3 => "aby3",
            Proto::MalAby3 => "aby3_mal",
            Proto::SpdzWise => "spdzwise",
            Proto::Swift3 => "swift3",
        }
    }
}

pub fn trunc(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}

#[allow(async_fn_in_trait)]
pub trait Session: Sized + 'static {
    const W: u32;
    const PROTO: Proto;
    type A: Clone + 'static;
    type B: Clone + 'static;
    fn open_session(net: SimNet) -> Result<Self, Error>;
    fn share<R: RngCore>(v: u64, key: u64, rng: &mut R) -> Vec<Self::A>;
    /// shares of a dealer-chosen MAC key (None where the protocol has none)
    fn key_shares<R: RngCore>(key: u64, rng: &mut R) -> Option<Vec<Self::A>>;
    async fn preprocess(&mut self) -> Result<(), Error>;
    fn set_key(&mut self, k: Self::A);
    fn set_new_key(&mut self);
    async fn precompute(&mut self, n: usize) -> Result<(), Error>;
    async fn finish(self) -> Result<(), Error>;
    async fn input(&mut self, v: Option<u64>, owner: usize) -> Result<Self::A, Error>;
    async fn open(&mut self, a: Self::A) -> Result<u64, Error>;
    async fn open_many(&mut self, a: Vec<Self::A>) -> Result<Vec<u64>, Error>;
    async fn open_bit(&mut self, b: Self::B) -> Result<bool, Error>;
    async fn open_bit_many(&mut self, b: Vec<Self::B>) -> Result<Vec<bool>, Error>;
    fn add(&self, a: Self::A, b: Self::A) -> Self::A;
    fn sub(&self, a: Self::A, b: Self::A) -> Self::A;
    fn add_const(&self, a: Self::A, v: u64) -> Self::A;
    fn sub_const(&self, a: Self::A, v: u64) -> Self::A;
    fn mul_const(&self, a: Self::A, v: u64) -> Self::A;
    async fn mul(&mut self, a: Self::A, b: Self::A) -> Result<Self::A, Error>;
    async fn dot(&mut self, a: Vec<Self::A>, b: Vec<Self::A>) -> Result<Self::A, Error>;
    async fn dot_many(&mut self, a: Vec<Vec<Self::A>>, b: Vec<Vec<Self::A>>) -> Result<Vec<Self::A>, Error>;
    async fn msb(&mut self, a: Self::A) -> Result<Self::B, Error>;
    async fn msb_many(&mut self, a: Vec<Self::A>) -> Result<Vec<Self::B>, Error>;
    async fn or(&mut self, a: Self::B, b: Self::B) -> Result<Self::B, Error>;
    async fn reduce_or(&mut self, b: Vec<Self::B>, chunk: usize) -> Result<Self::B, Error>;
    async fn verify(&mut self) -> Result<(), Error>;
    async fn iris(&mut self, probe: Vec<Self::A>, db: Vec<Vec<Self::A>>, mask: &IrisCodeArray, masks: &[IrisCodeArray], chunk: usize) -> Result<bool, Error>;
    fn tweak(a: &Self::A, comp: u8, delta: u64) -> Self::A;
    fn tweak_bit(b: &Self::B, comp: u8) -> Self::B;
    fn encode(a: &Self::A) -> Vec<u8>;
    fn decode(d: &[u8]) -> Self::A;
}

macro_rules! mkvec {
    (plain, $v:expr) => {
        $v
    };
    (spdz, $v:expr) => {
        SpdzWiseVecShare::from_vec($v)
    };
}
macro_rules! keyshares {
    (plain, $U:ty, $key:expr, $rng:expr) => {{
        let _ = (&$key, &$rng);
        None
    }};
    (spdz, $U:ty, $key:expr, $rng:expr) => {
        Some(
            <Aby3<SimNet> as MpcTrait<$U, Aby3Share<$U>, Aby3Share<Bit>>>::share($key as $U, Default::default(), $rng)
                .into_iter()
                .map(|m| SpdzWiseShare::new(Aby3Share::default(), m))
                .collect(),
        )
    };
}
macro_rules! tweakers {
    (aby3, $T:ty, $U:ty) => {
        fn tweak(a: &Self::A, comp: u8, delta: u64) -> Self::A {
            let (x, y) = a.clone().get_ab();
            let d = (delta as $T).to_sharetype();
            match comp % 3 {
                0 => Aby3Share::new(x + d, y),
                1 => Aby3Share::new(x, y + d),
                _ => Aby3Share::new(x + d.clone(), y + d),
            }
        }
    };
    (spdz, $T:ty, $U:ty) => {
        fn tweak(a: &Self::A, comp: u8, delta: u64) -> Self::A {
            let (v, m) = a.clone().get();
            let (x, y) = v.get_ab();
            let (p, q) = m.get_ab();
            let d = (delta as $U).to_sharetype();
            match comp % 6 {
                0 => SpdzWiseShare::new(Aby3Share::new(x + d, y), Aby3Share::new(p, q)),
                1 => SpdzWiseShare::new(Aby3Share::new(x, y + d), Aby3Share::new(p, q)),
                2 => SpdzWiseShare::new(Aby3Share::new(x + d.clone(), y + d), Aby3Share::new(p, q)),
                3 => SpdzWiseShare::new(Aby3Share::new(x, y), Aby3Share::new(p + d, q)),
                4 => SpdzWiseShare::new(Aby3Share::new(x, y), Aby3Share::new(p, q + d)),
                _ => SpdzWiseShare::new(Aby3Share::new(x + d.clone(), y), Aby3Share::new(p + d, q)),
            }
        }
    };
    (swift3, $T:ty, $U:ty) => {
        fn tweak(a: &Self::A, comp: u8, delta: u64) -> Self::A {
            let (x, y, z) = a.clone().get_abc();
            let d = (delta as $T).to_sharetype();
            match comp % 4 {
                0 => Swift3Share::new(x + d, y, z),
                1 => Swift3Share::new(x, y + d, z),
                2 => Swift3Share::new(x, y, z + d),
                _ => Swift3Share::new(x + d.clone(), y, z + d),
            }
        }
    };
}
macro_rules! bittweak {
    (aby3) => {
        fn tweak_bit(b: &Self::B, comp: u8) -> Self::B {
            let one = Bit::new(true).to_sharetype();
            let (x, y) = b.clone().get_ab();
            match comp % 3 {
                0 => Aby3Share::new(x + one, y),
                1 => Aby3Share::new(x, y + one),
                _ => Aby3Share::new(x + one.clone(), y + one),
            }
        }
    };
    (swift3) => {
        fn tweak_bit(b: &Self::B, comp: u8) -> Self::B {
            let one = Bit::new(true).to_sharetype();
            let (x, y, z) = b.clone().get_abc();
            match comp % 3 {
                0 => Swift3Share::new(x + one, y, z),
                1 => Swift3Share::new(x, y + one, z),
                _ => Swift3Share::new(x, y, z + one),
            }
        }
    };
}
macro_rules! holder {
    (iris, $T:ty, $A:ty, $B:ty, $M:ty) => {
        IrisProtocol<$T, $A, $B, $M>
    };
    (raw, $T:ty, $A:ty, $B:ty, $M:ty) => {
        Raw<$M>
    };
}
macro_rules! opensess {
    (iris, $m:expr) => {
        IrisProtocol::new($m)?
    };
    (raw, $m:expr) => {
        Raw { m: $m }
    };
}
macro_rules! iriscall {
    (iris, $vk:ident, $self:ident, $probe:ident, $db:ident, $mask:ident, $masks:ident, $chunk:ident) => {{
        let probe = mkvec!($vk, $probe);
        let db: Vec<_> = $db.into_iter().map(|v| mkvec!($vk, v)).collect();
        $self.h.iris_in_db(&probe, &db, $mask, $masks, $chunk).await
    }};
    (raw, $vk:ident, $self:ident, $probe:ident, $db:ident, $mask:ident, $masks:ident, $chunk:ident) => {{
        let _ = ($probe, $db, $mask, $masks, $chunk);
        Err(Error::ConfigError)
    }};
}

pub struct Raw<M> {
    m: M,
}
impl<M> Raw<M> {
    fn get_mpc_ref(&self) -> &M {
        &self.m
    }
    fn get_mpc_mut(&mut self) -> &mut M {
        &mut self.m
    }
    async fn finish_any<T, A, B>(self, f: impl AsyncFnOnce(M) -> Result<(), Error>) -> Result<(), Error> {
        let _ = std::marker::PhantomData::<(T, A, B)>;
        f(self.m).await
    }
}
macro_rules! fincall {
    (iris, $self:ident, $T:ty, $A:ty, $B:ty, $M:ty) => {
        $self.h.finish().await
    };
    (raw, $self:ident, $T:ty, $A:ty, $B:ty, $M:ty) => {
        $self.h.finish_any::<$T, $A, $B>(async |m: $M| <$M as MpcTrait<$T, $A, $B>>::finish(m).await).await
    };
}

macro_rules! session {
    ($name:ident, $proto:expr, $T:ty, $UT:ty, $U:ty, $A:ty, $B:ty, $M:ty, $vk:ident, $tw:ident, $btw:ident, $hold:ident) => {
        pub struct $name {
            h: holder!($hold, $T, $A, $B, $M),
        }
        impl $name {
            #[inline]
            fn m(&mut self) -> &mut $M {
                self.h.get_mpc_mut()
            }
        }
        impl Session for $name {
            const W: u32 = <$T>::BITS;
            const PROTO: Proto = $proto;
            type A = $A;
            type B = $B;
            fn open_session(net: SimNet) -> Result<Self, Error> {
                let m = <$M>::new(net);
                Ok($name { h: opensess!($hold, m) })
            }
            fn share<R: RngCore>(v: u64, key: u64, rng: &mut R) -> Vec<$A> {
                <$M as MpcTrait<$T, $A, $B>>::share(v as $T, key as _, rng)
            }
            #[allow(unused_variables)]
            fn key_shares<R: RngCore>(key: u64, rng: &mut R) -> Option<Vec<$A>> {
                keyshares!($vk, $U, key, rng)
            }
            async fn preprocess(&mut self) -> Result<(), Error> {
                <$M as MpcTrait<$T, $A, $B>>::preprocess(self.m()).await
            }
            fn set_key(&mut self, k: $A) {
                <$M as MpcTrait<$T, $A, $B>>::set_mac_key(self.m(), k)
            }
            fn set_new_key(&mut self) {
                <$M as MpcTrait<$T, $A, $B>>::set_new_mac_key(self.m())
            }
            async fn precompute(&mut self, n: usize) -> Result<(), Error> {
                <$M as MpcTrait<$T, $A, $B>>::precompute_and_triples(self.m(), n).await
            }
            async fn finish(self) -> Result<(), Error> {
                fincall!($hold, self, $T, $A, $B, $M)
            }
            async fn input(&mut self, v: Option<u64>, owner: usize) -> Result<$A, Error> {
                <$M as MpcTrait<$T, $A, $B>>::input(self.m(), v.map(|x| x as $T), owner).await
            }
            async fn open(&mut self, a: $A) -> Result<u64, Error> {
                <$M as MpcTrait<$T, $A, $B>>::open(self.m(), a).await.map(|v| v as $UT as u64)
            }
            async fn open_many(&mut self, a: Vec<$A>) -> Result<Vec<u64>, Error> {
                <$M as MpcTrait<$T, $A, $B>>::open_many(self.m(), mkvec!($vk, a)).await.map(|v| v.into_iter().map(|x| x as $UT as u64).collect())
            }
            async fn open_bit(&mut self, b: $B) -> Result<bool, Error> {
                <$M as MpcTrait<$T, $A, $B>>::open_bit(self.m(), b).await
            }
            async fn open_bit_many(&mut self, b: Vec<$B>) -> Result<Vec<bool>, Error> {
                <$M as MpcTrait<$T, $A, $B>>::open_bit_many(self.m(), b).await
            }
            fn add(&self, a: $A, b: $A) -> $A {
                <$M as MpcTrait<$T, $A, $B>>::add(self.h.get_mpc_ref(), a, b)
            }
            fn sub(&self, a: $A, b: $A) -> $A {
                <$M as MpcTrait<$T, $A, $B>>::sub(self.h.get_mpc_ref(), a, b)
            }
            fn add_const(&self, a: $A, v: u64) -> $A {
                <$M as MpcTrait<$T, $A, $B>>::add_const(self.h.get_mpc_ref(), a, v as $T)
            }
            fn sub_const(&self, a: $A, v: u64) -> $A {
                <$M as MpcTrait<$T, $A, $B>>::sub_const(self.h.get_mpc_ref(), a, v as $T)
            }
            fn mul_const(&self, a: $A, v: u64) -> $A {
                <$M as MpcTrait<$T, $A, $B>>::mul_const(self.h.get_mpc_ref(), a, v as $T)
            }
            async fn mul(&mut self, a: $A, b: $A) -> Result<$A, Error> {
                <$M as MpcTrait<$T, $A, $B>>::mul(self.m(), a, b).await
            }
            async fn dot(&mut self, a: Vec<$A>, b: Vec<$A>) -> Result<$A, Error> {
                <$M as MpcTrait<$T, $A, $B>>::dot(self.m(), mkvec!($vk, a), mkvec!($vk, b)).await
            }
            async fn dot_many(&mut self, a: Vec<Vec<$A>>, b: Vec<Vec<$A>>) -> Result<Vec<$A>, Error> {
                let a: Vec<_> = a.into_iter().map(|v| mkvec!($vk, v)).collect();
                let b: Vec<_> = b.into_iter().map(|v| mkvec!($vk, v)).collect();
                <$M as MpcTrait<$T, $A, $B>>::dot_many(self.m(), &a, &b).await
            }
            async fn msb(&mut self, a: $A) -> Result<$B, Error> {
                <$M as MpcTrait<$T, $A, $B>>::get_msb(self.m(), a).await
            }
            async fn msb_many(&mut self, a: Vec<$A>) -> Result<Vec<$B>, Error> {
                <$M as MpcTrait<$T, $A, $B>>::get_msb_many(self.m(), a).await
            }
            async fn or(&mut self, a: $B, b: $B) -> Result<$B, Error> {
                <$M as MpcTrait<$T, $A, $B>>::binary_or(self.m(), a, b).await
            }
            async fn reduce_or(&mut self, b: Vec<$B>, chunk: usize) -> Result<$B, Error> {
                <$M as MpcTrait<$T, $A, $B>>::reduce_binary_or(self.m(), b, chunk).await
            }
            async fn verify(&mut self) -> Result<(), Error> {
                <$M as MpcTrait<$T, $A, $B>>::verify(self.m()).await
            }
            async fn iris(&mut self, probe: Vec<$A>, db: Vec<Vec<$A>>, mask: &IrisCodeArray, masks: &[IrisCodeArray], chunk: usize) -> Result<bool, Error> {
                iriscall!($hold, $vk, self, probe, db, mask, masks, chunk)
            }
            tweakers!($tw, $T, $U);
            bittweak!($btw);
            fn encode(a: &$A) -> Vec<u8> {
                bincode::serialize(a).expect("encode share")
            }
            fn decode(d: &[u8]) -> $A {
                bincode::deserialize(d).expect("decode share")
            }
        }
    };
}

macro_rules! aby3 {
    ($name:ident, $T:ty, $UT:ty, $U:ty, $hold:ident) => {
        session!($name, Proto::Aby3, $T, $UT, $U, Aby3Share<$T>, Aby3Share<Bit>, Aby3<SimNet>, plain, aby3, aby3, $hold);
    };
}
macro_rules! mal {
    ($name:ident, $T:ty, $UT:ty, $U:ty, $hold:ident) => {
        session!($name, Proto::MalAby3, $T, $UT, $U, Aby3Share<$T>, Aby3Share<Bit>, MalAby3<SimNet>, plain, aby3, aby3, $hold);
    };
}
macro_rules! spdz {
    ($name:ident, $T:ty, $UT:ty, $U:ty, $hold:ident) => {
        session!($name, Proto::SpdzWise, $T, $UT, $U, SpdzWiseShare<$U>, Aby3Share<Bit>, SpdzWise<SimNet, $U>, spdz, spdz, aby3, $hold);
    };
}
macro_rules! swift {
    ($name:ident, $T:ty, $UT:ty, $U:ty, $hold:ident) => {
        session!($name, Proto::Swift3, $T, $UT, $U, Swift3Share<$T>, Swift3Share<Bit>, Swift3<SimNet, $T>, plain, swift3, swift3, $hold);
    };
}
aby3!(Aby3U8, u8, u8, u64, raw);
aby3!(Aby3U16, u16, u16, u64, iris);
aby3!(Aby3U32, u32, u32, u64, iris);
aby3!(Aby3U64, u64, u64, u128, iris);
aby3!(Aby3I16, i16, u16, u64, iris);
mal!(MalU8, u8, u8, u64, raw);
mal!(MalU16, u16, u16, u64, iris);
mal!(MalI16, i16, u16, u64, iris);
mal!(MalU64, u64, u64, u128, iris);
spdz!(SpdzU8, u8, u8, u64, raw);
spdz!(SpdzU16, u16, u16, u64, iris);
spdz!(SpdzI16, i16, u16, u64, iris);
spdz!(SpdzU32, u32, u32, u64, iris);
swift!(SwiftU8, u8, u8, u64, raw);
swift!(SwiftU16, u16, u16, u64, iris);
swift!(SwiftI16, i16, u16, u64, iris);
swift!(SwiftU32, u32, u32, u64, iris);

/// ring type tag
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Ring {
    U8,
    U16,
    I16,
    U32,
    U64,
}
impl Ring {
    pub fn bits(self) -> u32 {
        match self {
            Ring::U8 => 8,
            Ring::U16 | Ring::I16 => 16,
            Ring::U32 => 32,
            Ring::U64 => 64,
        }
    }
}
pub fn rings(p: Proto) -> &'static [Ring] {
    match p {
        Proto::Aby3 => &[Ring::U16, Ring::U8, Ring::U32, Ring::U64, Ring::I16],
        Proto::MalAby3 => &[Ring::U16, Ring::U8, Ring::I16, Ring::U64],
        Proto::SpdzWise => &[Ring::U16, Ring::U8, Ring::I16, Ring::U32],
        Proto::Swift3 => &[Ring::U16, Ring::U8, Ring::I16, Ring::U32],
    }
}

#[macro_export]
macro_rules! dispatch {
    ($proto:expr, $ring:expr, $S:ident => $e:expr) => {{
        use $crate::session::{Proto as P_, Ring as R_};
        match ($proto, $ring) {
            (P_::Aby3, R_::U8) => { type $S = $crate::session::Aby3U8; $e }
            (P_::Aby3, R_::U16) => { type $S = $crate::session::Aby3U16; $e }
            (P_::Aby3, R_::U32) => { type $S = $crate::session::Aby3U32; $e }
            (P_::Aby3, R_::U64) => { type $S = $crate::session::Aby3U64; $e }
            (P_::Aby3, R_::I16) => { type $S = $crate::session::Aby3I16; $e }
            (P_::MalAby3, R_::U8) => { type $S = $crate::session::MalU8; $e }
            (P_::MalAby3, R_::I16) => { type $S = $crate::session::MalI16; $e }
            (P_::MalAby3, R_::U64) => { type $S = $crate::session::MalU64; $e }
            (P_::MalAby3, _) => { type $S = $crate::session::MalU16; $e }
            (P_::SpdzWise, R_::U8) => { type $S = $crate::session::SpdzU8; $e }
            (P_::SpdzWise, R_::I16) => { type $S = $crate::session::SpdzI16; $e }
            (P_::SpdzWise, R_::U32) => { type $S = $crate::session::SpdzU32; $e }
            (P_::SpdzWise, _) => { type $S = $crate::session::SpdzU16; $e }
            (P_::Swift3, R_::U8) => { type $S = $crate::session::SwiftU8; $e }
            (P_::Swift3, R_::I16) => { type $S = $crate::session::SwiftI16; $e }
            (P_::Swift3, R_::U32) => { type $S = $crate::session::SwiftU32; $e }
            (P_::Swift3, _) => { type $S = $crate::session::SwiftU16; $e }
        }
    }};
}
