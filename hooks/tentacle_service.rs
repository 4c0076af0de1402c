/// (id, context) of every open session
pub fn sessions<T>(s: &Service<T>) -> Vec<(SessionId, Arc<SessionContext>)> {
    s.sessions.iter().map(|(k, v)| (*k, v.inner.clone())).collect()
}
/// number of attempts in progress, unless the service runs forever
pub fn pending<T>(s: &Service<T>) -> Option<usize> {
    match s.state {
        State::Running(n) => Some(n),
        _ => None,
    }
}
pub fn is_shutdown<T>(s: &Service<T>) -> bool {
    s.state.is_shutdown()
}
pub fn set_next_session<T>(s: &mut Service<T>, n: usize) {
    s.next_session = n.into();
}
pub fn dialing<T>(s: &Service<T>) -> usize {
    s.dial_protocols.len()
}
pub fn listens<T>(s: &Service<T>) -> Vec<Multiaddr> {
    s.listens.iter().cloned().collect()
}
pub fn add_listen<T>(s: &mut Service<T>, a: Multiaddr) {
    s.listens.insert(a);
}
pub fn start_count<T>(s: &mut Service<T>) {
    s.state.increase();
}
pub fn set_before_send<T>(
    s: &mut Service<T>,
    p: ProtocolId,
    f: Box<dyn Fn(Bytes) -> Bytes + Send + 'static>,
) {
    s.before_sends.insert(p, f);
}
pub fn wrapping_add(id: usize, n: usize) -> usize {
    SessionId::new(id).wrapping_add(n).value()
}

/// What one session is given to send, in the place of its task
pub struct Inbox {
    rx: priority_mpsc::Receiver<SessionEvent>,
    pub ctx: Arc<SessionContext>,
}
impl Inbox {
    /// next queued event: (high, session id, protocol id, data), or None data for any other event
    pub fn next(&mut self, cx: &mut Context) -> Option<(bool, Option<(SessionId, ProtocolId, Bytes)>)> {
        match Pin::new(&mut self.rx).poll_next(cx) {
            Poll::Ready(Some((p, e))) => Some((
                p.is_high(),
                match e {
                    SessionEvent::ProtocolMessage { id, proto_id, data } => Some((id, proto_id, data)),
                    _ => None,
                },
            )),
            _ => None,
        }
    }
}
pub fn install<T>(s: &mut Service<T>, id: SessionId, key: Option<PublicKey>, ty: SessionType, capacity: usize) -> Inbox {
    let ctx = Arc::new(SessionContext::new(
        id,
        "/ip4/127.0.0.1/tcp/1".parse().unwrap(),
        ty,
        key,
        Arc::new(AtomicBool::new(false)),
        Arc::new(AtomicUsize::new(0)),
    ));
    let (tx, rx) = priority_mpsc::channel(capacity);
    s.sessions.insert(id, SessionController::new(tx, ctx.clone()));
    Inbox { rx, ctx }
}

/// The events the service receives from its own tasks
pub enum Ev {
    Opened {
        io: Box<dyn crate::session::AsyncRW + Send + Unpin + 'static>,
        key: Option<PublicKey>,
        address: Multiaddr,
        ty: SessionType,
        listen: Option<Multiaddr>,
    },
    HandshakeError(Multiaddr, SessionType),
    DialError(Multiaddr),
    ListenError(Multiaddr),
    ListenStartError(Multiaddr),
    Closed(SessionId),
    /// a listener is up; needs a running reactor
    Listening(Multiaddr),
}
pub fn event<T: ServiceHandle + Unpin>(s: &mut Service<T>, cx: &mut Context, e: Ev) {
    let io = || TransportErrorKind::Io(std::io::ErrorKind::Other.into());
    let e = match e {
        Ev::Opened { io, key, address, ty, listen } => SessionEvent::HandshakeSuccess {
            handle: io,
            public_key: key,
            address,
            ty,
            listen_address: listen,
        },
        Ev::HandshakeError(address, ty) => SessionEvent::HandshakeError {
            address,
            ty,
            error: crate::error::HandshakeErrorKind::Timeout("timeout".into()),
        },
        Ev::DialError(address) => SessionEvent::DialError { address, error: io() },
        Ev::ListenError(address) => SessionEvent::ListenError { address, error: io() },
        Ev::ListenStartError(address) => SessionEvent::ListenStartError { address, error: io() },
        Ev::Closed(id) => SessionEvent::SessionClose { id },
        Ev::Listening(listen_address) => SessionEvent::ListenStart {
            listen_address,
            incoming: MultiIncoming::Tcp(
                crate::runtime::from_std(std::net::TcpListener::bind("127.0.0.1:0").unwrap()).unwrap(),
            ),
        },
    };
    s.handle_session_event(cx, e);
}
/// the next task the user has queued
pub fn user_task<T: ServiceHandle + Unpin>(s: &mut Service<T>, cx: &mut Context) -> bool {
    match s.user_task_poll(cx) {
        Poll::Ready(Some(())) => true,
        _ => false,
    }
}
/// the next event the tasks of the service have queued
pub fn session_task<T: ServiceHandle + Unpin>(s: &mut Service<T>, cx: &mut Context) -> bool {
    match s.session_poll(cx) {
        Poll::Ready(Some(())) => true,
        _ => false,
    }
}
pub fn message<T: ServiceHandle + Unpin>(
    s: &mut Service<T>,
    cx: &mut Context,
    target: TargetSession,
    p: ProtocolId,
    high: bool,
    data: Bytes,
) {
    let priority = if high { Priority::High } else { Priority::Normal };
    s.handle_service_task(cx, ServiceTask::ProtocolMessage { target, proto_id: p, data }, priority);
}
pub fn flush<T: ServiceHandle + Unpin>(s: &mut Service<T>, cx: &mut Context) {
    s.flush_buffer(cx);
}
pub fn service_context<T: ServiceHandle + Unpin>(s: &mut Service<T>) -> &mut ServiceContext {
    &mut s.service_context
}
pub fn proto_ctx(c: &ServiceContext, p: ProtocolId) -> crate::context::ProtocolContext {
    crate::context::ProtocolContext::new(c.clone_self(), p)
}
pub fn proto_ctx_ref<'a, 'b: 'a>(c: &'a mut crate::context::ProtocolContext, s: &'b SessionContext) -> crate::context::ProtocolContextMutRef<'a> {
    c.as_mut(s)
}
