//! A peer that speaks the daemons' protocol over the network, byte by byte if needed.

use crate::{
    runner::fail,
    world::{Peer, R},
};
use automerge::sync::Message as SyncMessage;
use futures::{AsyncReadExt, AsyncWriteExt, StreamExt};
use libp2p::{
    core::transport::upgrade::Version, identity::Keypair, multiaddr::Multiaddr, noise, pnet, swarm::SwarmEvent, tcp, yamux,
    Stream, StreamProtocol, Swarm, Transport,
};
use std::time::Duration;

const PROTOCOL: StreamProtocol = StreamProtocol::new("/ethersync");

fn swarm() -> Swarm<libp2p_stream::Behaviour> {
    let mut key = [0u8; 32];
    pbkdf2::pbkdf2_hmac::<sha2::Sha256>(b"default-passphrase", b"ethersync", 1000, &mut key);
    let psk = pnet::PreSharedKey::new(key);
    libp2p::SwarmBuilder::with_existing_identity(Keypair::generate_ed25519())
        .with_tokio()
        .with_other_transport(|keypair| {
            let transport = tcp::tokio::Transport::new(tcp::Config::new())
                .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket));
            Ok(transport
                .upgrade(Version::V1Lazy)
                .authenticate(noise::Config::new(keypair)?)
                .multiplex(yamux::Config::default()))
        })
        .expect("transport")
        .with_behaviour(|_| libp2p_stream::Behaviour::new())
        .expect("behaviour")
        .with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(600)))
        .build()
}

/// A connection on which nothing was said yet.
pub struct Line {
    control: libp2p_stream::Control,
    peer: libp2p::PeerId,
    task: tokio::task::JoinHandle<()>,
}

impl Line {
    pub async fn connect(port: u16) -> R<Self> {
        let mut swarm = swarm();
        let addr: Multiaddr = format!("/ip4/127.0.0.1/tcp/{port}").parse().expect("address");
        swarm.dial(addr).expect("dial");
        let connected = async {
            loop {
                match swarm.select_next_some().await {
                    SwarmEvent::ConnectionEstablished { peer_id, .. } => return Ok(peer_id),
                    SwarmEvent::OutgoingConnectionError { error, .. } => return Err(error.to_string()),
                    _ => {}
                }
            }
        };
        let peer = match tokio::time::timeout(Duration::from_secs(30), connected).await {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return fail("no-connection", format!("a peer can not connect: {e}")),
            Err(_) => return fail("no-connection", "a peer can not connect in 30 s"),
        };
        let control = swarm.behaviour().new_control();
        let task = tokio::spawn(async move {
            loop {
                swarm.select_next_some().await;
            }
        });
        Ok(Self { control, peer, task })
    }

    pub async fn open(mut self) -> R<Wire> {
        let opening = self.control.open_stream(self.peer, PROTOCOL);
        match tokio::time::timeout(Duration::from_secs(30), opening).await {
            Ok(Ok(stream)) => Ok(Wire {
                peer: Peer::new(),
                stream,
                buf: vec![],
                _line: self,
            }),
            Ok(Err(e)) => fail("no-stream", format!("a peer can not open a stream: {e}")),
            Err(_) => fail("no-stream", "a peer can not open a stream in 30 s"),
        }
    }
}

impl Drop for Line {
    fn drop(&mut self) {
        self.task.abort();
    }
}

/// A peer in the middle of a conversation.
pub struct Wire {
    pub peer: Peer,
    stream: Stream,
    buf: Vec<u8>,
    _line: Line,
}

pub fn frame(m: SyncMessage) -> Vec<u8> {
    let m = m.encode();
    let mut out = (m.len() as u32).to_be_bytes().to_vec();
    out.extend(m);
    out
}

impl Wire {
    /// Writes some of the bytes; how many, or None if the other side does not take any for a while.
    pub async fn write(&mut self, bytes: &[u8]) -> R<Option<usize>> {
        let writing = async {
            let n = self.stream.write(bytes).await?;
            self.stream.flush().await?;
            Ok::<usize, std::io::Error>(n)
        };
        match tokio::time::timeout(Duration::from_millis(200), writing).await {
            Ok(Ok(n)) if n > 0 => Ok(Some(n)),
            Ok(Ok(_)) => fail("connection-lost", "the daemon closed the connection"),
            Ok(Err(e)) => fail("connection-lost", format!("the daemon closed the connection: {e}")),
            Err(_) => Ok(None),
        }
    }

    /// A message, if one comes in a moment.
    pub async fn read(&mut self, ms: u64) -> R<Option<SyncMessage>> {
        loop {
            if self.buf.len() >= 4 {
                let n = u32::from_be_bytes(self.buf[..4].try_into().unwrap()) as usize;
                if self.buf.len() >= 4 + n {
                    let m: Vec<u8> = self.buf.drain(..4 + n).collect();
                    return match SyncMessage::decode(&m[4..]) {
                        Ok(m) => Ok(Some(m)),
                        Err(e) => fail("bad-message", format!("the daemon sent a message of {n} bytes that is none: {e}")),
                    };
                }
            }
            let mut tmp = vec![0u8; 65536];
            match tokio::time::timeout(Duration::from_millis(ms), self.stream.read(&mut tmp)).await {
                Ok(Ok(0)) => return fail("connection-lost", "the daemon closed the connection"),
                Ok(Ok(n)) => self.buf.extend_from_slice(&tmp[..n]),
                Ok(Err(e)) => return fail("connection-lost", format!("the daemon closed the connection: {e}")),
                Err(_) => return Ok(None),
            }
        }
    }
}
