//! A stand-in for ic-agent's `Agent`, so that the command line tool can be run whole against the simulated
//! ledger: every request goes as one frame through the named pipe `$VP_CLI/req`, and the reply comes back
//! through `$VP_CLI/resp`. The identity file's content names the caller.
use candid::Principal;
use std::fmt;
use std::fs::OpenOptions;
use std::io::{Read, Write};

#[derive(Debug)]
pub enum AgentError {
    Message(String),
    Io(String),
}
impl fmt::Display for AgentError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            AgentError::Message(m) => write!(f, "The replica returned a rejection error: {m}"),
            AgentError::Io(m) => write!(f, "stand-in: {m}"),
        }
    }
}
impl std::error::Error for AgentError {}

fn io(e: std::io::Error) -> AgentError {
    AgentError::Io(e.to_string())
}

pub mod identity {
    use candid::Principal;
    use std::path::Path;

    pub trait Identity: Send + Sync {
        fn sender(&self) -> Result<Principal, String>;
    }

    #[derive(Debug)]
    pub struct PemError(pub String);
    impl std::fmt::Display for PemError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for PemError {}

    macro_rules! identities { ($($name:ident),*) => { $(
        #[derive(Clone, Debug)]
        pub struct $name(pub Principal);
        impl $name {
            pub fn from_pem_file<P: AsRef<Path>>(path: P) -> Result<Self, PemError> {
                let text = std::fs::read_to_string(path).map_err(|e| PemError(e.to_string()))?;
                Principal::from_text(text.trim()).map($name).map_err(|e| PemError(e.to_string()))
            }
        }
        impl Identity for $name {
            fn sender(&self) -> Result<Principal, String> { Ok(self.0) }
        }
    )* } }
    identities!(Secp256k1Identity, BasicIdentity, Prime256v1Identity);

    #[derive(Clone, Debug)]
    pub struct AnonymousIdentity;
    impl Identity for AnonymousIdentity {
        fn sender(&self) -> Result<Principal, String> { Ok(Principal::anonymous()) }
    }
}
pub use identity::Identity;

#[derive(Clone)]
pub struct Agent {
    sender: Principal,
}

pub struct AgentBuilder {
    sender: Principal,
}

impl AgentBuilder {
    pub fn with_identity<I: Identity + 'static>(mut self, i: I) -> Self {
        self.sender = i.sender().expect("sender");
        self
    }
    pub fn with_boxed_identity(mut self, i: Box<dyn Identity>) -> Self {
        self.sender = i.sender().expect("sender");
        self
    }
    pub fn with_url<S: Into<String>>(self, _url: S) -> Self {
        self
    }
    pub fn with_verify_query_signatures(self, _v: bool) -> Self {
        self
    }
    pub fn with_ingress_expiry(self, _d: std::time::Duration) -> Self {
        self
    }
    pub fn build(self) -> Result<Agent, AgentError> {
        Ok(Agent { sender: self.sender })
    }
}

impl Agent {
    pub fn builder() -> AgentBuilder {
        AgentBuilder { sender: Principal::anonymous() }
    }
    pub async fn fetch_root_key(&self) -> Result<(), AgentError> {
        Ok(())
    }
    pub fn get_principal(&self) -> Result<Principal, String> {
        Ok(self.sender)
    }
    pub fn update<S: Into<String>>(&self, id: &Principal, method: S) -> Request<'_> {
        Request { agent: self, update: true, id: *id, method: method.into(), arg: vec![] }
    }
    pub fn query<S: Into<String>>(&self, id: &Principal, method: S) -> Request<'_> {
        Request { agent: self, update: false, id: *id, method: method.into(), arg: vec![] }
    }
}

pub struct Request<'a> {
    agent: &'a Agent,
    update: bool,
    id: Principal,
    method: String,
    arg: Vec<u8>,
}

impl Request<'_> {
    pub fn with_arg<A: Into<Vec<u8>>>(mut self, arg: A) -> Self {
        self.arg = arg.into();
        self
    }
    pub fn with_effective_canister_id(self, _id: Principal) -> Self {
        self
    }
    pub async fn call_and_wait(self) -> Result<Vec<u8>, AgentError> {
        self.perform()
    }
    pub async fn call(self) -> Result<Vec<u8>, AgentError> {
        self.perform()
    }
    fn perform(self) -> Result<Vec<u8>, AgentError> {
        let dir = std::env::var("VP_CLI").map_err(|e| AgentError::Io(e.to_string()))?;
        let mut frame = vec![];
        let mut part = |b: &[u8]| {
            frame.extend((b.len() as u32).to_le_bytes());
            frame.extend(b);
        };
        part(if self.update { b"update" } else { b"query" });
        part(self.agent.sender.as_slice());
        part(self.id.as_slice());
        part(self.method.as_bytes());
        part(&self.arg);
        let mut out = vec![];
        out.extend((frame.len() as u32).to_le_bytes());
        out.extend(frame);
        OpenOptions::new().write(true).open(format!("{dir}/req")).map_err(io)?.write_all(&out).map_err(io)?;
        let mut resp = OpenOptions::new().read(true).write(true).open(format!("{dir}/resp")).map_err(io)?;
        let mut head = [0u8; 5];
        resp.read_exact(&mut head).map_err(io)?;
        let n = u32::from_le_bytes(head[1..5].try_into().unwrap()) as usize;
        let mut body = vec![0; n];
        resp.read_exact(&mut body).map_err(io)?;
        if head[0] == 0 {
            Ok(body)
        } else {
            Err(AgentError::Message(String::from_utf8_lossy(&body).into_owned()))
        }
    }
}
