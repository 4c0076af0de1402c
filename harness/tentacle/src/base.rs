//! A service handle that keeps a log, and small builders
#![allow(dead_code)]
use std::sync::{Arc, Mutex};
use tentacle::builder::MetaBuilder;
use tentacle::context::{ServiceContext, SessionContext};
use tentacle::secio::{PublicKey, SecioKeyPair};
use tentacle::service::{ProtocolMeta, ServiceError, ServiceEvent};
use tentacle::traits::ServiceHandle;

#[derive(Default)]
pub struct Log {
    pub opened: Vec<Arc<SessionContext>>,
    pub closed: Vec<Arc<SessionContext>>,
    pub dial_errors: Vec<String>,
    pub listen_errors: Vec<String>,
    /// sessions reported as timed out
    pub timeouts: Vec<Arc<SessionContext>>,
    pub select_errors: Vec<(Option<String>, Arc<SessionContext>)>,
    pub started: usize,
}
#[derive(Clone, Default)]
pub struct H(pub Arc<Mutex<Log>>);
impl ServiceHandle for H {
    fn handle_error(&mut self, _: &mut ServiceContext, e: ServiceError) {
        let mut l = self.0.lock().unwrap();
        match e {
            ServiceError::DialerError { address, error } => l.dial_errors.push(format!("{} {:?}", address, error)),
            ServiceError::ListenError { address, error } => l.listen_errors.push(format!("{} {:?}", address, error)),
            ServiceError::SessionTimeout { session_context } => l.timeouts.push(session_context),
            ServiceError::ProtocolSelectError { proto_name, session_context } => l.select_errors.push((proto_name, session_context)),
            _ => {}
        }
    }
    fn handle_event(&mut self, _: &mut ServiceContext, e: ServiceEvent) {
        let mut l = self.0.lock().unwrap();
        match e {
            ServiceEvent::SessionOpen { session_context } => l.opened.push(session_context),
            ServiceEvent::SessionClose { session_context } => l.closed.push(session_context),
            ServiceEvent::ListenStarted { .. } => l.started += 1,
            _ => {}
        }
    }
}
pub fn meta(id: usize) -> ProtocolMeta {
    MetaBuilder::default().id(id.into()).build()
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new().basic_scheduler().enable_all().build().unwrap()
}
thread_local! {
    static KEYS: Vec<PublicKey> = (0..5).map(|_| SecioKeyPair::secp256k1_generated().public_key()).collect();
    static OWN: SecioKeyPair = SecioKeyPair::secp256k1_generated();
}
pub fn own() -> SecioKeyPair {
    OWN.with(|k| k.clone())
}
pub fn key(i: usize) -> PublicKey {
    KEYS.with(|k| k[i].clone())
}
