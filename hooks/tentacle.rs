pub use crate::buffer::{Buffer, PriorityBuffer, SendResult};
pub mod chan {
    pub use crate::channel::mpsc::{
        channel, unbounded, Priority, Receiver, Sender, UnboundedReceiver, UnboundedSender,
    };
    pub use crate::channel::QuickSinkExt;
}
use crate::{
    channel::mpsc as pmpsc,
    context::SessionContext,
    protocol_select::{client_select, server_select, ProtocolInfo, SelectFn},
    service::{config::SessionConfig, SessionType},
    substream::{
        PatchedReadPart, ProtocolEvent, Substream, SubstreamBuilder, SubstreamWritePart,
        SubstreamWritePartBuilder,
    },
    yamux::StreamHandle,
};
use bytes::{Bytes, BytesMut};
use futures::{channel::mpsc, prelude::*};
use std::{
    collections::HashMap,
    io,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicUsize},
        Arc,
    },
    task::{Context, Poll},
};
use tokio::prelude::{AsyncRead, AsyncWrite};
use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Framed, FramedWrite};

pub async fn client<T: AsyncRead + AsyncWrite + Unpin + Send>(
    io: T,
    name: &str,
    versions: Vec<String>,
) -> Result<(Framed<T, LengthDelimitedCodec>, String, Option<String>), io::Error> {
    client_select(io, ProtocolInfo::new(name, versions)).await
}
/// supported protocols as (name, versions), each with its optional version selector
pub async fn server<T: AsyncRead + AsyncWrite + Unpin + Send>(
    io: T,
    protocols: Vec<(String, Vec<String>, Option<SelectFn<String>>)>,
) -> Result<(Framed<T, LengthDelimitedCodec>, String, Option<String>), io::Error> {
    let mut m = HashMap::new();
    for (n, v, f) in protocols {
        m.insert(n.clone(), (ProtocolInfo::new(&n, v), f));
    }
    server_select(io, m).await
}
/// the messages of the negotiation, encoded and decoded by the library
pub fn encode_info(name: &str, versions: Vec<String>) -> Bytes {
    ProtocolInfo::new(name, versions).encode()
}
pub fn decode_info(data: &[u8]) -> Option<(String, Vec<String>)> {
    ProtocolInfo::decode(data).map(|i| (i.name, i.support_versions))
}
pub fn find_type(a: &crate::multiaddr::Multiaddr) -> String {
    format!("{:?}", crate::transports::find_type(a))
}

/// The sending half of one protocol stream, over a given stream handle
pub struct Sub {
    whole: Option<Substream<LengthDelimitedCodec>>,
    part: Option<SubstreamWritePart<LengthDelimitedCodec>>,
    _read: Option<crate::runtime::ReadHalf<StreamHandle>>,
    tx: pmpsc::Sender<ProtocolEvent>,
    rx: mpsc::Receiver<ProtocolEvent>,
    pub ctx: Arc<SessionContext>,
}
impl Sub {
    pub fn new(
        handle: StreamHandle,
        split: bool,
        capacity: usize,
        recv_buffer_size: usize,
        send_buffer_size: usize,
    ) -> Sub {
        let ctx = Arc::new(SessionContext::new(
            1.into(),
            "/ip4/127.0.0.1/tcp/1".parse().unwrap(),
            SessionType::Outbound,
            None,
            Arc::new(AtomicBool::new(false)),
            Arc::new(AtomicUsize::new(0)),
        ));
        let (tx, prx) = pmpsc::channel(capacity);
        let (ptx, rx) = mpsc::channel(1024);
        let mut config = SessionConfig::default();
        config.recv_buffer_size = recv_buffer_size;
        config.send_buffer_size = send_buffer_size;
        let (mut whole, mut part, mut read) = (None, None, None);
        if split {
            let (r, w) = crate::runtime::split(handle);
            read = Some(r);
            part = Some(
                SubstreamWritePartBuilder::new(ptx, prx, ctx.clone())
                    .stream_id(1)
                    .proto_id(1.into())
                    .config(config)
                    .build(FramedWrite::new(w, LengthDelimitedCodec::new())),
            );
        } else {
            whole = Some(
                SubstreamBuilder::new(ptx, prx, ctx.clone())
                    .stream_id(1)
                    .proto_id(1.into())
                    .config(config)
                    .build(Framed::new(handle, LengthDelimitedCodec::new())),
            );
        }
        Sub { whole, part, _read: read, tx, rx, ctx }
    }
    /// queue a message the way the session does; false if the queue is full
    pub fn queue(&mut self, high: bool, data: Bytes) -> bool {
        let n = data.len();
        let event = ProtocolEvent::Message {
            id: 1,
            proto_id: 1.into(),
            data,
        };
        self.ctx.incr_pending_data_size(n);
        let r = if high { self.tx.try_quick_send(event) } else { self.tx.try_send(event) };
        if r.is_err() {
            self.ctx.decr_pending_data_size(n);
        }
        r.is_ok()
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
        if let Some(s) = self.whole.as_mut() {
            return Pin::new(s).poll_next(cx);
        }
        // the spawned protocol reads, which is what takes in window updates
        if let Some(r) = self._read.as_mut() {
            let mut b = [0u8; 16];
            let _ = Pin::new(r).poll_read(cx, &mut b);
        }
        Pin::new(self.part.as_mut().unwrap()).poll_next(cx)
    }
    /// number of events the stream has told its session
    pub fn told(&mut self) -> usize {
        let mut n = 0;
        while let Ok(Some(_)) = self.rx.try_next() {
            n += 1;
        }
        n
    }
}

/// The reading half handed to spawned protocols: already received bytes, then the stream
pub fn patched(
    handle: StreamHandle,
    leftover: BytesMut,
) -> (impl AsyncRead + Unpin, crate::runtime::WriteHalf<StreamHandle>) {
    let (r, w) = crate::runtime::split(handle);
    (PatchedReadPart::new(r, leftover), w)
}
