//! Wires over every authentication and encryption scheme, chosen at run time.
use over_there::core::transport::auth::{
    Authenticator, Digest, NoopAuthenticator, Sha256Authenticator, Sha512Authenticator, Signer, Verifier,
};
use over_there::core::transport::crypto::{
    nonce::cache::NonceCacheBicrypter, Aes128GcmBicrypter, Aes128GcmSivBicrypter, Aes128SivBicrypter,
    Aes256GcmBicrypter, Aes256GcmSivBicrypter, Aes256SivBicrypter, AssociatedData, Bicrypter, CryptError, Decrypter,
    Encrypter, NoopBicrypter,
};
use over_there::core::transport::{InboundWire, OutboundWire, Wire};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AuthSpec {
    Noop,
    Sha256(Vec<u8>),
    Sha512(Vec<u8>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum CryptKind {
    Noop,
    Gcm128,
    Gcm256,
    GcmSiv128,
    GcmSiv256,
    Siv128,
    Siv256,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CryptSpec {
    pub kind: CryptKind,
    pub key_seed: u64,
    /// Some(n): wrapped in a nonce cache of size n
    pub cache: Option<usize>,
}

/// A clone is a clone of the scheme inside
pub struct DynAuth(Arc<dyn SV>);
impl Clone for DynAuth {
    fn clone(&self) -> Self {
        DynAuth(self.0.dup())
    }
}
pub trait SV: Send + Sync {
    fn s(&self, m: &[u8]) -> Digest;
    fn v(&self, m: &[u8], d: &Digest) -> bool;
    fn dup(&self) -> Arc<dyn SV>;
}
impl<T: Signer + Verifier + Clone + Send + Sync + 'static> SV for T {
    fn dup(&self) -> Arc<dyn SV> {
        Arc::new(self.clone())
    }
    fn s(&self, m: &[u8]) -> Digest {
        self.sign(m)
    }
    fn v(&self, m: &[u8], d: &Digest) -> bool {
        self.verify(m, d)
    }
}
impl Signer for DynAuth {
    fn sign(&self, m: &[u8]) -> Digest {
        self.0.s(m)
    }
}
impl Verifier for DynAuth {
    fn verify(&self, m: &[u8], d: &Digest) -> bool {
        self.0.v(m, d)
    }
}
impl Authenticator for DynAuth {}
impl Default for DynAuth {
    fn default() -> Self {
        DynAuth(Arc::new(NoopAuthenticator))
    }
}

pub trait ED: Send + Sync {
    fn e(&self, m: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError>;
    fn d(&self, m: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError>;
    fn n(&self) -> AssociatedData;
    fn dup(&self) -> Arc<dyn ED>;
}
impl<T: Bicrypter + Clone + Send + Sync + 'static> ED for T {
    fn dup(&self) -> Arc<dyn ED> {
        Arc::new(self.clone())
    }
    fn e(&self, m: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.encrypt(m, a)
    }
    fn d(&self, m: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.decrypt(m, a)
    }
    fn n(&self) -> AssociatedData {
        self.new_encrypt_associated_data()
    }
}
/// A clone is a clone of the scheme inside
pub struct DynCrypt(pub Arc<dyn ED>);
impl Clone for DynCrypt {
    fn clone(&self) -> Self {
        DynCrypt(self.0.dup())
    }
}
impl Encrypter for DynCrypt {
    fn encrypt(&self, m: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.0.e(m, a)
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        self.0.n()
    }
}
impl Decrypter for DynCrypt {
    fn decrypt(&self, m: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.0.d(m, a)
    }
}
impl Bicrypter for DynCrypt {}
impl Default for DynCrypt {
    fn default() -> Self {
        DynCrypt(Arc::new(NoopBicrypter))
    }
}

pub fn bytes(seed: u64, n: usize) -> Vec<u8> {
    use rand::{RngCore, SeedableRng};
    let mut r = rand::rngs::StdRng::seed_from_u64(seed);
    let mut v = vec![0; n];
    r.fill_bytes(&mut v);
    v
}

impl AuthSpec {
    pub fn build(&self) -> DynAuth {
        DynAuth(match self {
            AuthSpec::Noop => Arc::new(NoopAuthenticator),
            AuthSpec::Sha256(k) => Arc::new(Sha256Authenticator::new(k)),
            AuthSpec::Sha512(k) => Arc::new(Sha512Authenticator::new(k)),
        })
    }
    pub fn name(&self) -> &'static str {
        match self {
            AuthSpec::Noop => "noop",
            AuthSpec::Sha256(_) => "sha256",
            AuthSpec::Sha512(_) => "sha512",
        }
    }
}
impl CryptKind {
    pub fn key_len(self) -> usize {
        match self {
            CryptKind::Noop => 0,
            CryptKind::Gcm128 | CryptKind::GcmSiv128 => 16,
            CryptKind::Gcm256 | CryptKind::GcmSiv256 | CryptKind::Siv128 => 32,
            CryptKind::Siv256 => 64,
        }
    }
    pub fn nonce_len(self) -> usize {
        match self {
            CryptKind::Noop => 0,
            CryptKind::Siv128 | CryptKind::Siv256 => 16,
            _ => 12,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            CryptKind::Noop => "noop",
            CryptKind::Gcm128 => "gcm128",
            CryptKind::Gcm256 => "gcm256",
            CryptKind::GcmSiv128 => "gcmsiv128",
            CryptKind::GcmSiv256 => "gcmsiv256",
            CryptKind::Siv128 => "siv128",
            CryptKind::Siv256 => "siv256",
        }
    }
    pub fn build(self, key: &[u8], cache: Option<usize>) -> DynCrypt {
        fn a16(k: &[u8]) -> [u8; 16] {
            let mut o = [0; 16];
            o.copy_from_slice(k);
            o
        }
        fn a32(k: &[u8]) -> [u8; 32] {
            let mut o = [0; 32];
            o.copy_from_slice(k);
            o
        }
        fn a64(k: &[u8]) -> [u8; 64] {
            let mut o = [0; 64];
            o.copy_from_slice(k);
            o
        }
        macro_rules! w {
            ($b:expr) => {{
                let b = $b;
                match cache {
                    None => DynCrypt(Arc::new(b)),
                    Some(n) => DynCrypt(Arc::new(NonceCacheBicrypter::new(b, n))),
                }
            }};
        }
        match self {
            CryptKind::Noop => w!(NoopBicrypter),
            CryptKind::Gcm128 => w!(Aes128GcmBicrypter::new(&a16(key))),
            CryptKind::Gcm256 => w!(Aes256GcmBicrypter::new(&a32(key))),
            CryptKind::GcmSiv128 => w!(Aes128GcmSivBicrypter::new(&a16(key))),
            CryptKind::GcmSiv256 => w!(Aes256GcmSivBicrypter::new(&a32(key))),
            CryptKind::Siv128 => w!(Aes128SivBicrypter::new(&a32(key))),
            CryptKind::Siv256 => w!(Aes256SivBicrypter::new(&a64(key))),
        }
    }
}
impl CryptSpec {
    pub fn key(&self) -> Vec<u8> {
        bytes(self.key_seed, self.kind.key_len())
    }
    pub fn build(&self) -> DynCrypt {
        self.kind.build(&self.key(), self.cache)
    }
}

pub type In = InboundWire<DynAuth, DynCrypt>;
pub type Out = OutboundWire<DynAuth, DynCrypt>;

pub fn sender(ts: usize, a: &AuthSpec, c: &CryptSpec) -> Out {
    let w = Wire::new(ts, Duration::from_secs(3600), a.build(), c.build());
    w.clone_split().1
}
pub fn receiver(ts: usize, ttl: Duration, a: &AuthSpec, c: &CryptSpec) -> In {
    let w = Wire::new(ts, ttl, a.build(), c.build());
    w.clone_split().0
}

pub fn auth_any() -> BoxedStrategy<AuthSpec> {
    prop_oneof![Just(AuthSpec::Noop), auth_keyed()].boxed()
}
pub fn auth_keyed() -> BoxedStrategy<AuthSpec> {
    let key = prop_oneof![
        prop::collection::vec(any::<u8>(), 1..40),
        prop::collection::vec(any::<u8>(), 60..200),
        Just(vec![]),
    ];
    (key, any::<bool>()).prop_map(|(k, b)| if b { AuthSpec::Sha256(k) } else { AuthSpec::Sha512(k) }).boxed()
}
pub fn kind_any() -> BoxedStrategy<CryptKind> {
    prop_oneof![
        Just(CryptKind::Noop),
        Just(CryptKind::Gcm128),
        Just(CryptKind::Gcm256),
        Just(CryptKind::GcmSiv128),
        Just(CryptKind::GcmSiv256),
        Just(CryptKind::Siv128),
        Just(CryptKind::Siv256),
    ]
    .boxed()
}
pub fn kind_enc() -> BoxedStrategy<CryptKind> {
    prop_oneof![
        Just(CryptKind::Gcm128),
        Just(CryptKind::Gcm256),
        Just(CryptKind::GcmSiv128),
        Just(CryptKind::GcmSiv256),
        Just(CryptKind::Siv128),
        Just(CryptKind::Siv256),
    ]
    .boxed()
}
pub fn crypt_any() -> BoxedStrategy<CryptSpec> {
    (kind_any(), any::<u64>(), prop_oneof![3 => Just(None), 1 => Just(Some(1000usize))])
        .prop_map(|(kind, key_seed, cache)| CryptSpec { kind, key_seed, cache })
        .boxed()
}

/// A payload: small literal bytes, or a length and a fill
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Payload {
    Lit(Vec<u8>),
    Rand { len: usize, seed: u64 },
    Fill { len: usize, byte: u8 },
}
impl Payload {
    pub fn get(&self) -> Vec<u8> {
        match self {
            Payload::Lit(v) => v.clone(),
            Payload::Rand { len, seed } => bytes(*seed, *len),
            Payload::Fill { len, byte } => vec![*byte; *len],
        }
    }
}
pub fn payload(max: usize) -> BoxedStrategy<Payload> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 1..64).prop_map(Payload::Lit),
        6 => (1..=max, any::<u64>()).prop_map(|(len, seed)| Payload::Rand { len, seed }),
        2 => (1..=max, any::<u8>()).prop_map(|(len, byte)| Payload::Fill { len, byte }),
    ]
    .boxed()
}
