#![allow(dead_code)]
#![allow(unused_imports)]
pub use omnipaxos::{
    ballot_leader_election::Ballot,
    messages::{ballot_leader_election::*, sequence_paxos::*, Message},
    storage::*,
    util::*,
    *,
};
pub use omnipaxos_storage::memory_storage::MemoryStorage;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, rc::Rc};

/// a log entry; its snapshot is the concatenation of the entries
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct E(pub u64);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Snap(pub Vec<u64>);
impl Snapshot<E> for Snap {
    fn create(entries: &[E]) -> Self {
        Snap(entries.iter().map(|e| e.0).collect())
    }
    fn merge(&mut self, d: Self) {
        self.0.extend(d.0)
    }
    fn use_snapshots() -> bool {
        std::env::var("DEMO_SNAP").is_ok()
    }
}

impl Entry for E {
    type Snapshot = Snap;
}

/// storage that survives the server using it; counts and can fail operations
pub struct Disk {
    pub s: MemoryStorage<E>,
    pub ops: Vec<String>,
    pub fail: Option<&'static str>,
}
#[derive(Clone)]
pub struct Shared(pub Rc<RefCell<Disk>>);
impl Shared {
    pub fn new() -> Self {
        Shared(Rc::new(RefCell::new(Disk { s: MemoryStorage::default(), ops: vec![], fail: None })))
    }
    fn w<R>(&self, name: &'static str, f: impl FnOnce(&mut MemoryStorage<E>) -> StorageResult<R>) -> StorageResult<R> {
        let mut d = self.0.borrow_mut();
        d.ops.push(name.to_string());
        if d.fail == Some(name) {
            return Err("injected".into());
        }
        f(&mut d.s)
    }
    fn r<R>(&self, name: &'static str, f: impl FnOnce(&MemoryStorage<E>) -> StorageResult<R>) -> StorageResult<R> {
        let d = self.0.borrow();
        if d.fail == Some(name) {
            return Err("injected".into());
        }
        f(&d.s)
    }
    pub fn log(&self) -> Vec<u64> {
        let d = self.0.borrow();
        let c = d.s.get_compacted_idx().unwrap();
        d.s.get_suffix(c).unwrap().iter().map(|e| e.0).collect()
    }
    /// snapshot ++ log
    pub fn all(&self) -> Vec<u64> {
        let d = self.0.borrow();
        let mut v = d.s.get_snapshot().unwrap().map(|s| s.0).unwrap_or_default();
        drop(d);
        v.extend(self.log());
        v
    }
}
impl Storage<E> for Shared {
    fn write_atomically(&mut self, ops: Vec<StorageOp<E>>) -> StorageResult<()> {
        self.w("write_atomically", |s| s.write_atomically(ops))
    }
    fn append_entry(&mut self, e: E) -> StorageResult<()> {
        self.w("append_entry", |s| s.append_entry(e))
    }
    fn append_entries(&mut self, e: Vec<E>) -> StorageResult<()> {
        self.w("append_entries", |s| s.append_entries(e))
    }
    fn append_on_prefix(&mut self, i: usize, e: Vec<E>) -> StorageResult<()> {
        self.w("append_on_prefix", |s| s.append_on_prefix(i, e))
    }
    fn set_promise(&mut self, n: Ballot) -> StorageResult<()> {
        self.w("set_promise", |s| s.set_promise(n))
    }
    fn set_decided_idx(&mut self, i: usize) -> StorageResult<()> {
        self.w("set_decided_idx", |s| s.set_decided_idx(i))
    }
    fn get_decided_idx(&self) -> StorageResult<usize> {
        self.r("get_decided_idx", |s| s.get_decided_idx())
    }
    fn set_accepted_round(&mut self, n: Ballot) -> StorageResult<()> {
        self.w("set_accepted_round", |s| s.set_accepted_round(n))
    }
    fn get_accepted_round(&self) -> StorageResult<Option<Ballot>> {
        self.r("get_accepted_round", |s| s.get_accepted_round())
    }
    fn get_entries(&self, a: usize, b: usize) -> StorageResult<Vec<E>> {
        self.r("get_entries", |s| s.get_entries(a, b))
    }
    fn get_log_len(&self) -> StorageResult<usize> {
        self.r("get_log_len", |s| s.get_log_len())
    }
    fn get_suffix(&self, a: usize) -> StorageResult<Vec<E>> {
        self.r("get_suffix", |s| s.get_suffix(a))
    }
    fn get_promise(&self) -> StorageResult<Option<Ballot>> {
        self.r("get_promise", |s| s.get_promise())
    }
    fn set_stopsign(&mut self, x: Option<StopSign>) -> StorageResult<()> {
        self.w("set_stopsign", |s| s.set_stopsign(x))
    }
    fn get_stopsign(&self) -> StorageResult<Option<StopSign>> {
        self.r("get_stopsign", |s| s.get_stopsign())
    }
    fn trim(&mut self, i: usize) -> StorageResult<()> {
        self.w("trim", |s| s.trim(i))
    }
    fn set_compacted_idx(&mut self, i: usize) -> StorageResult<()> {
        self.w("set_compacted_idx", |s| s.set_compacted_idx(i))
    }
    fn get_compacted_idx(&self) -> StorageResult<usize> {
        self.r("get_compacted_idx", |s| s.get_compacted_idx())
    }
    fn set_snapshot(&mut self, x: Option<Snap>) -> StorageResult<()> {
        self.w("set_snapshot", |s| s.set_snapshot(x))
    }
    fn get_snapshot(&self) -> StorageResult<Option<Snap>> {
        self.r("get_snapshot", |s| s.get_snapshot())
    }
}

pub type Node = OmniPaxos<E, Shared>;
pub fn node_with(pid: u64, n: u64, d: &Shared, f: impl FnOnce(&mut OmniPaxosConfig)) -> Node {
    let mut c = OmniPaxosConfig {
        cluster_config: ClusterConfig { configuration_id: 1, nodes: (1..=n).collect(), flexible_quorum: None },
        server_config: ServerConfig { pid, ..Default::default() },
    };
    f(&mut c);
    c.build(d.clone()).unwrap()
}
pub fn node(pid: u64, n: u64, d: &Shared) -> Node {
    node_with(pid, n, d, |_| ())
}
pub fn b(n: u32, pid: u64) -> Ballot {
    Ballot::with(1, n, 0, pid)
}
pub fn msg(from: u64, to: u64, m: PaxosMsg<E>) -> Message<E> {
    Message::SequencePaxos(PaxosMessage { from, to, msg: m })
}
/// all outgoing Sequence Paxos messages
pub fn out(x: &mut Node) -> Vec<PaxosMessage<E>> {
    let mut v = vec![];
    x.take_outgoing_messages(&mut v);
    v.into_iter().filter_map(|m| match m { Message::SequencePaxos(p) => Some(p), _ => None }).collect()
}
pub fn es(v: &[u64]) -> Vec<E> {
    v.iter().map(|x| E(*x)).collect()
}
pub fn seq(session: u64, counter: u64) -> SequenceNumber {
    SequenceNumber { session, counter }
}
pub fn sync(sync_idx: usize, suffix: &[u64]) -> LogSync<E> {
    LogSync { decided_snapshot: None, suffix: es(suffix), sync_idx, stopsign: None }
}
pub fn prepare(x: &mut Node, from: u64, to: u64, n: Ballot, na: Ballot, acc: usize, dec: usize) {
    x.handle_incoming(msg(from, to, PaxosMsg::Prepare(Prepare { n, n_accepted: na, accepted_idx: acc, decided_idx: dec })));
}
pub fn accsync(x: &mut Node, from: u64, to: u64, n: Ballot, s: SequenceNumber, dec: usize, ls: LogSync<E>) {
    x.handle_incoming(msg(from, to, PaxosMsg::AcceptSync(AcceptSync { n, seq_num: s, decided_idx: dec, log_sync: ls })));
}
pub fn accdec(x: &mut Node, from: u64, to: u64, n: Ballot, s: SequenceNumber, dec: usize, e: &[u64]) {
    x.handle_incoming(msg(from, to, PaxosMsg::AcceptDecide(AcceptDecide { n, seq_num: s, decided_idx: dec, entries: es(e) })));
}
/// follower `pid` of a cluster of 3 led by 1 with ballot n, log synced to `log`
pub fn follower(pid: u64, d: &Shared, n: Ballot, log: &[u64], dec: usize) -> Node {
    let mut x = node(pid, 3, d);
    prepare(&mut x, n.pid, pid, n, Ballot::default(), 0, 0);
    accsync(&mut x, n.pid, pid, n, seq(1, 1), dec, sync(0, log));
    out(&mut x);
    x
}
/// delivers everything until quiet
pub fn settle(ns: &mut [(u64, Node)]) {
    for _ in 0..1000 {
        let mut all = vec![];
        for (_, x) in ns.iter_mut() {
            all.extend(out(x));
        }
        if all.is_empty() {
            return;
        }
        for m in all {
            if let Some((_, x)) = ns.iter_mut().find(|(p, _)| *p == m.to) {
                x.handle_incoming(Message::SequencePaxos(m));
            }
        }
    }
    panic!("does not settle");
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
