//! The database world: strings are stored through diesel in SQLite on a simulated disk that
//! fails, fills up, loses power and rots, by several clients whose transactions interleave, and
//! are read back. Two references: the same run with String, and the values a row may have given
//! what was acknowledged.

use crate::kinds::*;
use crate::vfs::{self, disk, DiskFault, Do, Op};
use diesel::connection::SimpleConnection;
use diesel::prelude::*;
use diesel::result::{DatabaseErrorKind, Error};
use diesel::sqlite::SqliteConnection;
use dstcore::ctx::*;
use dstcore::driver::World;
use dstcore::exec::{Cover, Viol, C02, C07, C11, C14};
use dstcore::rng::{hash_bytes, mix, Rng};
use dstcore::text::{dict, Fit, Txt, STYLES};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Step {
    Put { kind: String, id: u8, txt: Txt, past: Txt, via: u8 },
    Null { id: u8 },
    /// something another program left there
    Foreign { id: u8, what: u8, txt: Txt },
    Delete { id: u8 },
    Get { kind: String, id: u8, via: u8 },
    /// all rows; that many of the next steps run while the rows are being read
    All { kind: String, via: u8, nest: u8 },
    Find { kind: String, txt: Txt, past: Txt, via: u8 },
    /// through a function of the client's own
    Call { kind: String, txt: Txt, past: Txt, null: bool },
    Begin { how: u8 },
    Commit,
    Rollback,
    /// a closure's transaction, of that many puts, that ends well (0), in an error (1) or a panic
    Tx { kind: String, id: u8, txt: Txt, past: Txt, puts: u8, end: u8 },
    Close,
    /// everything stops and the power comes back
    Reboot,
    /// to and from the other servers' formats, damaged on the way
    Remote { from: String, to: String, txt: Txt, past: Txt, my: bool, damage: Vec<(u16, u8)> },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SqlPlan {
    pub log: LogMode,
    /// delete, truncate, persist, wal
    pub journal: u8,
    pub utf16: bool,
    pub page: u16,
    pub sector: u16,
    pub cache: u16,
    pub noise: u32,
    pub clients: u8,
    /// milliseconds a client waits for a lock
    pub patience: u16,
    pub steps: Vec<(u8, Step)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<DiskFault>,
    /// the power fails at the end
    pub hard_end: bool,
}

// ---- what may be stored ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Val {
    Absent,
    Null,
    Text(Vec<u8>),
    Foreign,
}
type Poss = BTreeSet<Val>;
#[derive(Default)]
struct Model {
    rows: BTreeMap<i32, Poss>,
}
impl Model {
    fn get(&self, id: i32) -> Poss {
        self.rows.get(&id).cloned().unwrap_or_else(|| Poss::from([Val::Absent]))
    }
    fn set(&mut self, id: i32, v: Val) {
        self.rows.insert(id, Poss::from([v]));
    }
    fn maybe(&mut self, id: i32, v: Val) {
        let mut p = self.get(id);
        p.insert(v);
        self.rows.insert(id, p);
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Out {
    Done(usize),
    Rows(Vec<Row>),
    Ids(Vec<i32>),
    Bytes(Vec<Option<Vec<u8>>>),
    Err(String),
    Panic(String),
    Caller,
    /// the power failed meanwhile: nobody saw the end of it
    Dead,
    Skip,
}
fn class(e: &Error) -> String {
    match e {
        Error::DatabaseError(k, i) => format!("{k:?}: {}", i.message()),
        Error::DeserializationError(_) => "deserialization".into(),
        Error::SerializationError(_) => "serialization".into(),
        e => format!("{e:?}"),
    }
}
fn busy(e: &Error) -> bool {
    matches!(e, Error::DatabaseError(_, i) if i.message().contains("locked"))
}

struct Client {
    conn: Option<SqliteConnection>,
    tx: Option<BTreeMap<i32, Val>>,
}
struct Exec<'a> {
    p: &'a SqlPlan,
    /// the reference run
    plain: bool,
    clients: Vec<Client>,
    model: Model,
    out: Vec<(usize, Out)>,
    bad: Vec<(usize, u32, String)>,
    caps: Vec<usize>,
    next: usize,
}
fn kind(name: &str) -> &'static SqlKind {
    KINDS.iter().find(|k| k.name == name).unwrap_or(&KINDS[0])
}
fn prefix(s: &[u8], room: usize) -> &[u8] {
    if s.len() <= room {
        return s;
    }
    match std::str::from_utf8(s) {
        Ok(t) => {
            let mut n = room;
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            &s[..n]
        }
        Err(_) => &s[..room],
    }
}
/// the two characters that SQLite itself replaces between its encodings
fn through(s: &str, utf16: bool) -> Vec<u8> {
    if utf16 {
        s.replace(['\u{fffe}', '\u{ffff}'], "\u{fffd}").into_bytes()
    } else {
        s.as_bytes().to_vec()
    }
}

const IDS: i32 = 5;

impl<'a> Exec<'a> {
    fn new(p: &'a SqlPlan, plain: bool) -> Exec<'a> {
        Exec {
            p,
            plain,
            clients: (0..p.clients.max(1)).map(|_| Client { conn: None, tx: None }).collect(),
            model: Model::default(),
            out: vec![],
            bad: vec![],
            caps: vec![],
            next: 0,
        }
    }
    fn pragmas(&self, c: &mut SqliteConnection) -> QueryResult<()> {
        let p = self.p;
        c.batch_execute(&format!("PRAGMA busy_timeout = {}", p.patience))?;
        c.batch_execute(&format!("PRAGMA cache_size = {}", p.cache.max(1)))?;
        if p.journal == 3 {
            c.batch_execute("PRAGMA locking_mode = EXCLUSIVE")?;
        }
        let j = ["DELETE", "TRUNCATE", "PERSIST", "WAL"][p.journal as usize % 4];
        c.batch_execute(&format!("PRAGMA journal_mode = {j}"))?;
        c.batch_execute("PRAGMA synchronous = EXTRA")?;
        if p.journal == 3 {
            c.batch_execute("PRAGMA wal_autocheckpoint = 4")?;
        }
        Ok(())
    }
    fn open(&self) -> Result<SqliteConnection, String> {
        let mut c = SqliteConnection::establish("/db").map_err(|e| format!("{e:?}"))?;
        self.pragmas(&mut c).map_err(|e| class(&e))?;
        Ok(c)
    }
    fn create(&mut self) {
        vfs::format(self.p.sector.max(512) as usize, self.p.noise as u64);
        let p = self.p;
        let mut c = SqliteConnection::establish("/db").expect("open");
        c.batch_execute(&format!("PRAGMA page_size = {}", p.page)).expect("page");
        c.batch_execute(if p.utf16 { "PRAGMA encoding = 'UTF-16le'" } else { "PRAGMA encoding = 'UTF-8'" })
            .expect("encoding");
        self.pragmas(&mut c).expect("pragmas");
        c.batch_execute("CREATE TABLE t (id INTEGER PRIMARY KEY, v VARCHAR)").expect("create");
        drop(c);
        disk().arm(&p.faults);
    }
    /// The kind that stands for this one here.
    fn pick(&self, name: &str) -> (&'static SqlKind, usize) {
        let k = kind(name);
        (if self.plain { STRING } else { k }, k.cap)
    }
    fn texts(&self, txt: &Txt, past: &Txt, cap: usize) -> (String, String) {
        let t = txt.text(cap, 0);
        let past = past.text(cap, 0);
        let t = String::from_utf8(prefix(t.as_bytes(), cap).to_vec()).unwrap();
        (t, past)
    }

    fn run(&mut self) {
        self.next = 0;
        while self.next < self.p.steps.len() {
            let i = self.next;
            self.next += 1;
            self.step(i, None);
        }
        // the end: everything is read once more
        disk().disarm();
        if self.p.hard_end || disk().dead {
            self.reboot();
        }
        for c in &mut self.clients {
            c.conn = None;
            c.tx = None;
        }
        let n = self.p.steps.len();
        match self.open() {
            Err(e) => self.put_out(n, usize::MAX, Out::Err(e)),
            Ok(mut c) => {
                let names: BTreeSet<&str> = KINDS.iter().map(|k| k.name).collect();
                for name in names {
                    let (k, cap) = self.pick(name);
                    let mut rows = vec![];
                    let r = guard(|| (k.all)(&mut c, 0, &mut |r| rows.push(r)).map(|_| 0));
                    let o = match r {
                        Ok(Ok(_)) => Out::Rows(rows),
                        Ok(Err(e)) => Out::Err(class(&e)),
                        Err(o) => o,
                    };
                    if let Out::Rows(r) = &o {
                        self.judge_all(n, None, r, cap);
                    } else if !disk().rotten && !self.foreign() {
                        self.bad.push((n, C11, format!("the rows cannot be read any more: {o:?}")));
                    }
                    self.put_out(n, cap, o);
                }
                // what is stored, byte by byte
                #[derive(QueryableByName)]
                struct Raw {
                    #[diesel(sql_type = diesel::sql_types::Integer)]
                    id: i32,
                    #[diesel(sql_type = diesel::sql_types::Text)]
                    y: String,
                    #[diesel(sql_type = diesel::sql_types::Nullable<diesel::sql_types::Text>)]
                    h: Option<String>,
                }
                let raw = diesel::sql_query("SELECT id, typeof(v) AS y, hex(v) AS h FROM t ORDER BY id")
                    .load::<Raw>(&mut c);
                let o = match raw {
                    Err(e) => Out::Err(class(&e)),
                    Ok(rows) => {
                        if !disk().rotten && !self.p.utf16 {
                            for r in &rows {
                                let hex = |b: &[u8]| b.iter().map(|b| format!("{b:02X}")).collect::<String>();
                                let fits = self.model.get(r.id).iter().any(|v| match v {
                                    Val::Text(t) => r.y == "text" && r.h.as_deref() == Some(&hex(t)),
                                    Val::Null => r.y == "null",
                                    Val::Foreign => true,
                                    Val::Absent => false,
                                });
                                if !fits {
                                    self.bad.push((
                                        n,
                                        C11,
                                        format!(
                                            "row {} is stored as {} {:?}, possible are {}",
                                            r.id, r.y, r.h, shown(&self.model.get(r.id))
                                        ),
                                    ));
                                }
                            }
                        }
                        Out::Rows(rows.into_iter().map(|r| (r.id, Some(format!("{} {:?}", r.y, r.h).into_bytes()))).collect())
                    }
                };
                self.put_out(n, usize::MAX, o);
            }
        }
    }
    /// Some row may hold what cannot be read as text.
    fn foreign(&self) -> bool {
        self.model.rows.values().any(|p| p.contains(&Val::Foreign))
    }
    fn put_out(&mut self, i: usize, cap: usize, o: Out) {
        let d = disk();
        let s = format!("{o:?}");
        if self.plain {
            d.hash = mix(d.hash ^ hash_bytes(0, s.as_bytes()));
        }
        self.out.push((i, o));
        self.caps.push(cap);
    }
    fn reboot(&mut self) {
        // what was being committed may or may not have made it: judged by the caller
        disk().dead = true;
        for c in &mut self.clients {
            c.conn = None;
            c.tx = None;
        }
        disk().reboot();
    }

    /// Every row of the answer is possible, and every row that must be there is.
    fn judge_all(&mut self, i: usize, client: Option<usize>, rows: &[Row], cap: usize) {
        if disk().rotten {
            return;
        }
        for id in 0..IDS + 2 {
            let found: Vec<&Row> = rows.iter().filter(|r| r.0 == id).collect();
            let p = self.possible(client, id);
            if found.len() > 1 {
                self.bad.push((i, C11, format!("row {id} came twice")));
            }
            self.judge(i, &p, id, found.first().map(|r| &r.1), cap);
        }
    }
    fn possible(&self, client: Option<usize>, id: i32) -> Poss {
        if let Some(v) = client.and_then(|c| self.clients[c].tx.as_ref()).and_then(|t| t.get(&id)) {
            return Poss::from([v.clone()]);
        }
        self.model.get(id)
    }
    fn judge(&mut self, i: usize, p: &Poss, id: i32, got: Option<&Option<Vec<u8>>>, cap: usize) {
        if disk().rotten {
            return;
        }
        // the reference run cuts nothing
        let cap = if self.plain { usize::MAX } else { cap };
        let ok = p.iter().any(|v| match (v, got) {
            (Val::Absent, None) => true,
            (Val::Null, Some(None)) => true,
            (Val::Text(t), Some(Some(b))) => prefix(t, cap) == &b[..],
            (Val::Foreign, Some(_)) => true,
            _ => false,
        });
        if !ok {
            self.bad.push((
                i,
                C11,
                format!(
                    "row {id} reads as {}, possible are {}",
                    match got {
                        None => "absent".to_string(),
                        Some(None) => "NULL".to_string(),
                        Some(Some(b)) => format!("{:?}", String::from_utf8_lossy(b)),
                    },
                    shown(p)
                ),
            ));
        }
    }
    /// A write of these values ended in this way.
    fn wrote(&mut self, c: usize, vals: &[(i32, Val)], r: &Result<usize, Error>, update: bool) {
        let dead = disk().dead;
        match (r, &mut self.clients[c].tx) {
            (Ok(n), Some(t)) => {
                if !update || *n > 0 {
                    for (id, v) in vals {
                        t.insert(*id, v.clone());
                    }
                }
            }
            (Ok(n), None) if !dead => {
                if !update || *n > 0 {
                    for (id, v) in vals {
                        self.model.set(*id, v.clone());
                    }
                }
            }
            (Err(Error::DatabaseError(DatabaseErrorKind::UniqueViolation, _)), _) => {}
            (Err(_), Some(_)) => {
                // what is left of the transaction is given up
                let gone = match &mut self.clients[c].conn {
                    Some(k) => k.batch_execute("ROLLBACK").is_err(),
                    None => false,
                };
                if gone {
                    self.clients[c].conn = None;
                }
                self.clients[c].tx = None;
            }
            (_, None) => {
                for (id, v) in vals {
                    self.model.maybe(*id, v.clone());
                }
            }
        }
    }

    fn step(&mut self, i: usize, busy_client: Option<usize>) {
        let (c, s) = &self.p.steps[i];
        let c = *c as usize % self.clients.len();
        if Some(c) == busy_client {
            self.put_out(i, usize::MAX, Out::Skip);
            return;
        }
        if let Step::Reboot = s {
            if busy_client.is_none() {
                self.reboot();
                self.put_out(i, usize::MAX, Out::Done(0));
            } else {
                self.put_out(i, usize::MAX, Out::Skip);
            }
            return;
        }
        if let Step::Close = s {
            self.clients[c].conn = None;
            self.clients[c].tx = None;
            self.put_out(i, usize::MAX, Out::Done(0));
            return;
        }
        if let Step::Remote { from, to, txt, past, my, damage } = s {
            self.remote(i, from, to, txt, past, *my, damage);
            return;
        }
        if disk().dead {
            // nested in a read that the power failure cut short
            self.put_out(i, usize::MAX, Out::Skip);
            return;
        }
        if self.clients[c].conn.is_none() {
            match self.open() {
                Ok(k) => self.clients[c].conn = Some(k),
                Err(e) => {
                    let dead = disk().dead;
                    self.put_out(i, usize::MAX, if dead { Out::Dead } else { Out::Err(e) });
                    if dead && busy_client.is_none() {
                        self.reboot();
                    }
                    return;
                }
            }
        }
        let (o, cap) = self.act(i, c, s);
        let dead = disk().dead;
        self.put_out(i, cap, if dead { Out::Dead } else { o });
        if dead && busy_client.is_none() {
            self.reboot();
        }
    }

    fn act(&mut self, i: usize, c: usize, s: &Step) -> (Out, usize) {
        let utf16 = self.p.utf16;
        let Some(mut conn) = self.clients[c].conn.take() else {
            return (Out::Skip, 0);
        };
        let mut cap = usize::MAX;
        let mut panicked = false;
        // vals that a write is about
        let mut wrote: Option<(Vec<(i32, Val)>, bool)> = None;
        let mut read: Option<(usize, Option<i32>)> = None;
        let mut done = |r: Result<QueryResult<usize>, Out>| -> (Out, Option<Result<usize, Error>>) {
            match r {
                Ok(Ok(n)) => (Out::Done(n), Some(Ok(n))),
                Ok(Err(e)) => (Out::Err(class(&e)), Some(Err(e))),
                Err(o) => {
                    panicked = true;
                    (o, Some(Err(Error::RollbackTransaction)))
                }
            }
        };
        let mut res: Option<Result<usize, Error>> = None;
        let out = match s {
            Step::Put { kind: k, id, txt, past, via } => {
                let (k, n) = self.pick(k);
                let (t, past) = self.texts(txt, past, n);
                let id = *id as i32 % IDS;
                let v = Val::Text(through(&t, utf16));
                let mut vals = vec![(id, v.clone())];
                if via % PUTS == 6 {
                    vals.push((id + 1, v));
                }
                wrote = Some((vals, matches!(via % PUTS, 4 | 5)));
                let (o, r) = done(guard(|| (k.put)(&mut conn, *via, id, &t, &past)));
                res = r;
                o
            }
            Step::Null { id } => {
                let id = *id as i32 % IDS;
                wrote = Some((vec![(id, Val::Null)], false));
                let (o, r) = done(guard(|| {
                    diesel::sql_query(format!("REPLACE INTO t (id, v) VALUES ({id}, NULL)")).execute(&mut conn)
                }));
                res = r;
                o
            }
            Step::Foreign { id, what, txt } => {
                let id = *id as i32 % IDS;
                wrote = Some((vec![(id, Val::Foreign)], false));
                let t = txt.text(64, 0);
                let hex = |b: &[u8]| b.iter().map(|b| format!("{b:02X}")).collect::<String>();
                let mut broken = t.clone().into_bytes();
                if !broken.is_empty() {
                    let k = txt.seed as usize % broken.len();
                    broken[k] = [0xFF, 0xC3, 0x80, 0xED, 0xF4][txt.seed as usize % 5];
                }
                let v = match what % 8 {
                    0 => format!("x'{}'", hex(t.as_bytes())),
                    1 => format!("x'{}'", hex(&broken)),
                    2 => format!("CAST(x'{}' AS TEXT)", hex(&broken)),
                    3 => format!("{}", txt.seed as i64 * 7919 - 5000),
                    4 => format!("{:?}", txt.seed as f64 / 7.0),
                    5 => format!("CAST(x'{}' AS TEXT)", hex(&t.as_bytes()[..t.len() / 2])),
                    6 => "x''".to_string(),
                    _ => format!("zeroblob({})", txt.seed % 300),
                };
                let (o, r) = done(guard(|| {
                    diesel::sql_query(format!("REPLACE INTO t (id, v) VALUES ({id}, {v})")).execute(&mut conn)
                }));
                res = r;
                o
            }
            Step::Delete { id } => {
                let id = *id as i32 % IDS;
                wrote = Some((vec![(id, Val::Absent)], true));
                let (o, r) = done(guard(|| {
                    diesel::sql_query(format!("DELETE FROM t WHERE id = {id}")).execute(&mut conn)
                }));
                res = r;
                o
            }
            Step::Get { kind: k, id, via } => {
                let (k, n) = self.pick(k);
                cap = n;
                let id = *id as i32 % IDS;
                match guard(|| (k.get)(&mut conn, *via, id)) {
                    Ok(Ok(rows)) => {
                        read = Some((n, Some(id)));
                        Out::Rows(rows)
                    }
                    Ok(Err(e)) => Out::Err(class(&e)),
                    Err(o) => {
                        panicked = true;
                        o
                    }
                }
            }
            Step::All { kind: k, via, nest } => {
                let (k, n) = self.pick(k);
                cap = n;
                let mut rows = vec![];
                let mut left = *nest as usize;
                let r = guard(|| {
                    (k.all)(&mut conn, *via, &mut |r| {
                        rows.push(r);
                        if left > 0 && via % 3 == 0 && self.next < self.p.steps.len() {
                            left -= 1;
                            let j = self.next;
                            self.next += 1;
                            self.step(j, Some(c));
                        }
                    })
                });
                match r {
                    Ok(Ok(())) => {
                        read = Some((n, None));
                        Out::Rows(rows)
                    }
                    Ok(Err(e)) => Out::Err(class(&e)),
                    Err(o) => {
                        panicked = true;
                        o
                    }
                }
            }
            Step::Find { kind: k, txt, past, via } => {
                let (k, n) = self.pick(k);
                let (t, past) = self.texts(txt, past, n);
                match guard(|| (k.find)(&mut conn, *via, &t, &past)) {
                    Ok(Ok(ids)) => {
                        if !disk().rotten && !disk().dead {
                            let t = Val::Text(through(&t, utf16));
                            for id in 0..IDS + 2 {
                                let p = self.possible(Some(c), id);
                                let can = p.iter().any(|v| *v == t || *v == Val::Foreign);
                                let must = p.iter().all(|v| *v == t);
                                let has = ids.contains(&id);
                                if has && !can || must && !has {
                                    self.bad.push((
                                        i,
                                        C11,
                                        format!("searching {t:?} found {ids:?}, row {id} may be {}", shown(&p)),
                                    ));
                                }
                            }
                        }
                        Out::Ids(ids)
                    }
                    Ok(Err(e)) => Out::Err(class(&e)),
                    Err(o) => {
                        panicked = true;
                        o
                    }
                }
            }
            Step::Call { kind: k, txt, past, null } => {
                let (k, n) = self.pick(k);
                cap = n;
                let (t, past) = self.texts(txt, past, n);
                match guard(|| (k.call)(&mut conn, &t, &past, *null)) {
                    Ok(Ok(r)) => {
                        let p = Poss::from([if *null { Val::Null } else { Val::Text(through(&t, utf16)) }]);
                        if !disk().dead {
                            self.judge(i, &p, -1, Some(&r.1), n);
                        }
                        Out::Rows(vec![r])
                    }
                    Ok(Err(e)) => Out::Err(class(&e)),
                    Err(o) => {
                        panicked = true;
                        o
                    }
                }
            }
            Step::Begin { how } => {
                let sql = ["BEGIN", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE"][*how as usize % 3];
                match guard(|| conn.batch_execute(sql)) {
                    Ok(Ok(())) => {
                        if self.clients[c].tx.is_none() {
                            self.clients[c].tx = Some(BTreeMap::new());
                        }
                        Out::Done(0)
                    }
                    Ok(Err(e)) => Out::Err(class(&e)),
                    Err(o) => o,
                }
            }
            Step::Commit => match guard(|| conn.batch_execute("COMMIT")) {
                Ok(r) => {
                    let dead = disk().dead;
                    let o = match &r {
                        Ok(()) => Out::Done(0),
                        Err(e) => Out::Err(class(e)),
                    };
                    match (&r, self.clients[c].tx.take()) {
                        (Ok(()), Some(t)) if !dead => {
                            for (id, v) in t {
                                self.model.set(id, v);
                            }
                        }
                        // it can be tried again
                        (Err(e), Some(t)) if busy(e) && !dead => {
                            for (id, v) in &t {
                                self.model.maybe(*id, v.clone());
                            }
                            self.clients[c].tx = Some(t);
                        }
                        (_, Some(t)) => {
                            for (id, v) in t {
                                self.model.maybe(id, v);
                            }
                            panicked = true;
                        }
                        _ => {}
                    }
                    o
                }
                Err(o) => o,
            },
            Step::Rollback => {
                let r = guard(|| conn.batch_execute("ROLLBACK"));
                if self.clients[c].tx.take().is_some() && !matches!(r, Ok(Ok(()))) {
                    panicked = true;
                }
                match r {
                    Ok(Ok(())) => Out::Done(0),
                    Ok(Err(e)) => Out::Err(class(&e)),
                    Err(o) => o,
                }
            }
            Step::Tx { kind: k, id, txt, past, puts, end } => {
                let (k, n) = self.pick(k);
                let mut vals: BTreeMap<i32, Val> = BTreeMap::new();
                let mut all = vec![];
                for j in 0..(*puts % 4) as i32 {
                    let id = (*id as i32 + j * 2) % IDS;
                    let txt = Txt {
                        seed: txt.seed.wrapping_add(j as u32 * 77),
                        ..txt.clone()
                    };
                    let (t, past) = self.texts(&txt, past, n);
                    vals.insert(id, Val::Text(through(&t, utf16)));
                    all.push((id, t, past));
                }
                let r = guard(|| {
                    conn.transaction(|c| {
                        for (id, t, past) in &all {
                            (k.put)(c, 0, *id, t, past)?;
                        }
                        match end % 3 {
                            0 => Ok(all.len()),
                            1 => Err(Error::RollbackTransaction),
                            _ => std::panic::panic_any(Injected(Site::Source)),
                        }
                    })
                });
                let dead = disk().dead;
                let alone = self.clients[c].tx.is_none();
                let (o, r) = done(r);
                if alone {
                    for (id, v) in vals {
                        match &r {
                            Some(Ok(_)) if !dead => self.model.set(id, v),
                            _ if end % 3 == 0 => self.model.maybe(id, v),
                            // never asked to be kept
                            _ => {}
                        }
                    }
                    if !matches!(r, Some(Ok(_)) | Some(Err(Error::RollbackTransaction))) {
                        panicked = true;
                    }
                } else {
                    // diesel does not know of the outer one: it is given up
                    self.clients[c].tx = None;
                    if let Some(Ok(_)) = r {
                        for (id, v) in vals {
                            self.model.maybe(id, v);
                        }
                    }
                    panicked = true;
                }
                o
            }
            Step::Close | Step::Reboot | Step::Remote { .. } => Out::Skip,
        };
        // SQLite itself gives up a transaction in which reading fails: an explicit end for it
        let reads = matches!(s, Step::Get { .. } | Step::All { .. } | Step::Find { .. } | Step::Call { .. });
        if reads && self.clients[c].tx.is_some() && matches!(&out, Out::Err(e) if e != "deserialization") {
            panicked = true;
        }
        if panicked {
            self.clients[c].tx = None;
            drop(conn);
        } else {
            self.clients[c].conn = Some(conn);
        }
        if let (Some((vals, update)), Some(r)) = (wrote, res) {
            self.wrote(c, &vals, &r, update);
        }
        if let (Some((n, id)), Out::Rows(rows), false) = (read, &out, disk().dead) {
            match id {
                None => self.judge_all(i, Some(c), rows, n),
                Some(id) => {
                    let p = self.possible(Some(c), id);
                    self.judge(i, &p, id, rows.first().map(|r| &r.1), n);
                }
            }
        }
        (out, cap)
    }

    #[allow(clippy::too_many_arguments)]
    fn remote(&mut self, i: usize, from: &str, to: &str, txt: &Txt, past: &Txt, my: bool, damage: &[(u16, u8)]) {
        let (f, fcap) = self.pick(from);
        let (g, gcap) = self.pick(to);
        let (t, past) = self.texts(txt, past, fcap);
        let e = guard(|| Ok((f.encode)(&t, &past, my)));
        let o = match e {
            Err(o) => o,
            Ok(Err(e)) => Out::Err(class(&e)),
            Ok(Ok(Err(e))) => Out::Err(e),
            Ok(Ok(Ok(binds))) => {
                let want = vec![Some(t.clone().into_bytes()), Some(t.clone().into_bytes()), None];
                if binds != want {
                    self.bad.push((i, C11, format!("sent {binds:?}, not {want:?}")));
                }
                Out::Bytes(binds)
            }
        };
        let mut b = match &o {
            Out::Bytes(v) => v[0].clone().unwrap_or_default(),
            _ => vec![],
        };
        self.put_out(i, usize::MAX, o);
        for (at, k) in damage {
            if b.is_empty() {
                break;
            }
            let j = *at as usize % b.len();
            match k {
                0..=7 => b[j] ^= 1 << k,
                8 => {
                    b.remove(j);
                }
                9 => b.truncate(j),
                _ => {
                    let x = b[j];
                    b.insert(j, x);
                }
            }
        }
        let o = match guard(|| Ok((g.decode)(&b, my))) {
            Err(o) => o,
            Ok(Err(e)) => Out::Err(class(&e)),
            Ok(Ok(Err(_))) => Out::Err("deserialization".into()),
            Ok(Ok(Ok(v))) => Out::Rows(vec![(0, Some(v))]),
        };
        self.put_out(i, gcap, o);
    }
}
fn shown(p: &Poss) -> String {
    p.iter()
        .map(|v| match v {
            Val::Text(t) => format!("{:?}", String::from_utf8_lossy(t)),
            v => format!("{v:?}"),
        })
        .collect::<Vec<_>>()
        .join(" or ")
}
fn guard<R>(f: impl FnOnce() -> QueryResult<R>) -> Result<QueryResult<R>, Out> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<Injected>() {
            Out::Caller
        } else {
            Out::Panic(ctx().panic_msg.replace('\n', " "))
        }
    })
}

// ---- the world ------------------------------------------------------------------------------

pub struct Sql {
    prop: String,
    notes: Option<Vec<String>>,
}
impl Sql {
    pub fn new(prop: &str) -> Sql {
        Sql {
            prop: prop.to_string(),
            notes: None,
        }
    }
}
const CACHE: &str = "CacheString";
/// The same plan with the array string in place of the cache-line string.
fn twin(p: &SqlPlan) -> SqlPlan {
    let mut q = p.clone();
    for (_, s) in &mut q.steps {
        let names: &mut [&mut String] = match s {
            Step::Put { kind, .. }
            | Step::Get { kind, .. }
            | Step::All { kind, .. }
            | Step::Find { kind, .. }
            | Step::Call { kind, .. }
            | Step::Tx { kind, .. } => &mut [kind],
            Step::Remote { from, to, .. } => &mut [from, to],
            _ => &mut [],
        };
        for n in names {
            if *n == CACHE {
                **n = "ArrayString<63>".into();
            }
        }
    }
    q
}
fn txt(r: &mut Rng) -> Txt {
    let int = dict().int(r);
    let fit = match r.below(10) {
        _ if int.is_some() => Fit::Len(int.unwrap()),
        0 => Fit::Len(0),
        1..=3 => Fit::Len(r.below(12) as u32),
        4 => Fit::Len(r.below(300) as u32),
        5..=7 => Fit::Cap(r.range(-4, 1) as i16),
        _ => Fit::Cap(r.range(1, 20) as i16),
    };
    Txt {
        fit,
        style: *r.pick(&[6, 7, 9, 9, 9, 1, 0]) % STYLES,
        seed: r.below(1 << 16) as u32,
        spice: dict().word(r),
        alt: Fit::Len(0),
    }
}
fn name(r: &mut Rng) -> String {
    r.pick(KINDS).name.to_string()
}

impl World for Sql {
    type P = SqlPlan;
    fn name(&self) -> &'static str {
        "sql"
    }
    fn plan(&mut self, seed: u64) -> SqlPlan {
        let mut r = Rng::new(seed);
        let r = &mut r;
        let twins = self.prop == "C14";
        let journal = r.below(4) as u8;
        let clients = if journal == 3 { 1 } else { 1 + r.below(3) as u8 };
        let n = 4 + r.below(24);
        // few texts, so that searches find something
        let pool: Vec<Txt> = (0..3).map(|_| txt(r)).collect();
        let foreign = r.chance(1, 3);
        let tx = r.chance(2, 3);
        let mut steps = vec![];
        for _ in 0..n {
            let c = r.below(clients as usize) as u8;
            let kind = if twins && r.chance(1, 2) { CACHE.to_string() } else { name(r) };
            let id = r.below(IDS as usize) as u8;
            let t = if r.chance(1, 3) { r.pick(&pool).clone() } else { txt(r) };
            let past = txt(r);
            let s = match r.below(40) {
                0..=11 => Step::Put { kind, id, txt: t, past, via: r.below(PUTS as usize) as u8 },
                12 => Step::Null { id },
                13 | 14 if foreign => Step::Foreign { id, what: r.below(8) as u8, txt: t },
                15 => Step::Delete { id },
                16..=20 => Step::Get { kind, id, via: r.below(GETS as usize) as u8 },
                21..=24 => Step::All { kind, via: r.below(3) as u8, nest: r.below(4) as u8 },
                25 | 26 => Step::Find { kind, txt: t, past, via: r.below(4) as u8 },
                27 => Step::Call { kind, txt: t, past, null: r.chance(1, 6) },
                28 | 29 if tx => Step::Begin { how: r.below(3) as u8 },
                30 | 31 if tx => Step::Commit,
                32 if tx => Step::Rollback,
                33 | 34 => Step::Tx { kind, id, txt: t, past, puts: 1 + r.below(3) as u8, end: *r.pick(&[0, 0, 0, 1, 2]) },
                35 => Step::Close,
                36 => Step::Reboot,
                37 | 38 => Step::Remote {
                    from: kind,
                    to: if twins && r.chance(1, 2) { CACHE.to_string() } else { name(r) },
                    txt: t,
                    past,
                    my: r.chance(1, 2),
                    damage: (0..r.below(3)).map(|_| (r.below(1 << 12) as u16, r.below(11) as u8)).collect(),
                },
                _ => Step::Put { kind, id, txt: t, past, via: r.below(PUTS as usize) as u8 },
            };
            steps.push((c, s));
        }
        let mut faults = vec![];
        if !r.chance(1, 4) {
            let rot = r.chance(1, 6);
            for _ in 0..1 + r.below(4) {
                let op = *r.pick(&[
                    Op::Read,
                    Op::Write,
                    Op::Write,
                    Op::Write,
                    Op::Sync,
                    Op::Sync,
                    Op::Truncate,
                    Op::Delete,
                    Op::Open,
                    Op::Lock,
                    Op::Access,
                ]);
                let span = *r.pick(&[3usize, 12, 40, 120]);
                let at = r.below(span) as u32;
                let what = match r.below(12) {
                    0..=2 => Do::Fail,
                    3 | 4 => Do::FailLate,
                    5 if op == Op::Write => Do::Full(r.below(20) as u8),
                    6 if op == Op::Lock => Do::Busy,
                    7 => Do::Clock(r.range(-3000, 3000) as i16),
                    8 if rot => Do::Rot(r.below(1 << 16) as u32, r.below(8) as u8),
                    _ => Do::Crash,
                };
                faults.push(DiskFault { op, at, what });
            }
        }
        SqlPlan {
            log: match r.below(5) {
                0 => LogMode::Render,
                1 => LogMode::Reenter,
                _ => LogMode::Off,
            },
            journal,
            utf16: r.chance(1, 4),
            page: *r.pick(&[512, 512, 1024, 4096]),
            sector: *r.pick(&[512, 512, 4096]),
            cache: *r.pick(&[1, 4, 100]),
            noise: r.below(1 << 30) as u32,
            clients,
            patience: *r.pick(&[0, 0, 50, 5000]),
            steps,
            faults,
            hard_end: r.chance(1, 2),
        }
    }

    fn check(&mut self, p: &SqlPlan, cover: &mut Cover) -> Vec<Viol> {
        cover.runs += 1;
        let mut viols = vec![];
        ctx().unmade = false;
        let run = |p: &SqlPlan, plain: bool| {
            set_log(p.log);
            let mut e = Exec::new(p, plain);
            e.create();
            e.run();
            e.clients.clear();
            set_log(LogMode::Off);
            (std::mem::take(&mut e.out), std::mem::take(&mut e.bad), std::mem::take(&mut e.caps))
        };
        let (want, wbad, _) = run(p, true);
        let wd = std::mem::take(disk());
        let (got, gbad, caps) = run(p, false);
        let d = std::mem::take(disk());
        if self.prop == "C14" {
            let (other, ..) = run(&twin(p), false);
            for ((i, a), (_, b)) in got.iter().zip(&other) {
                if a != b {
                    viols.push(Viol {
                        tags: C14,
                        task: 0,
                        step: *i,
                        msg: format!("step {i}: {}, with the array string {}", brief(a), brief(b)),
                    });
                    break;
                }
            }
            *disk() = Default::default();
        }
        let of = |i: usize| match p.steps.get(i) {
            Some((c, s)) => format!("client {c} {s:?}"),
            None => "the last look".to_string(),
        };
        if !wbad.is_empty() {
            // String itself is not read back as it should be: not the library's doing
            if self.notes.is_some() || std::env::var_os("DST_LOUD").is_some() {
                eprintln!("the simulator disagrees with String: {:?}", wbad[0]);
                for (i, o) in &want {
                    eprintln!("   {}: {}", of(*i), brief(o).chars().take(150).collect::<String>());
                }
                eprintln!("   {:?}", p.faults);
            }
            cover.count("runs in which the model and String disagree", 1);
        }
        // what String does as well is not held against the library
        for (i, t, m) in gbad.into_iter().filter(|_| wbad.is_empty()) {
            viols.push(Viol {
                tags: t,
                task: 0,
                step: i,
                msg: format!("{}: {m}", of(i)),
            });
        }
        if got.len() != want.len() {
            viols.push(Viol {
                tags: C11,
                task: 0,
                step: got.len().min(want.len()),
                msg: format!("{} outcomes, with String {}", got.len(), want.len()),
            });
        }
        if ctx().unmade {
            cover.count("not judged: a string could not be made as planned", 1);
            return vec![];
        }
        for (((i, g), (_, w)), cap) in got.iter().zip(&want).zip(&caps) {
            if let Out::Rows(rows) = g {
                for (_, v) in rows {
                    if let Some(b) = v {
                        if b.len() > *cap || std::str::from_utf8(b).is_err() {
                            viols.push(Viol {
                                tags: C02 | C11,
                                task: 0,
                                step: *i,
                                msg: format!("{}: read a broken string {b:?}", of(*i)),
                            });
                        }
                    }
                }
            }
            let cut = match w {
                Out::Rows(r) => Out::Rows(
                    r.iter()
                        .map(|(id, v)| (*id, v.as_ref().map(|b| prefix(b, *cap).to_vec())))
                        .collect(),
                ),
                w => w.clone(),
            };
            if *g != cut {
                let t = if matches!(g, Out::Panic(_)) { C07 } else { 0 };
                viols.push(Viol {
                    tags: C11 | t,
                    task: 0,
                    step: *i,
                    msg: format!("{}: {}, with String {}", of(*i), brief(g), brief(&cut)),
                });
                break;
            }
        }
        if let Some(n) = &mut self.notes {
            for (i, o) in &got {
                n.push(format!("{}: {}", of(*i), brief(o)));
            }
        }
        cover.steps += got.len() as u64;
        cover.events += d.ops;
        for k in 0..7 {
            if d.fired[k] > 0 {
                cover.count(&format!("fault: {}", vfs::DOS[k]), d.fired[k]);
            }
        }
        cover.count("power cycles", d.crashes);
        cover.count("fault: unsynced sectors lost", d.lost);
        cover.count("fault: sectors torn", d.torn);
        cover.count("fault: rows left by another program", p.steps.iter().filter(|s| matches!(s.1, Step::Foreign { .. })).count() as u64);
        cover.count("simulated milliseconds", d.slept as u64 + d.ops);
        let locked = got.iter().filter(|o| matches!(&o.1, Out::Err(e) if e.contains("locked"))).count();
        cover.count("operations refused because of another client", locked as u64);
        for (i, o) in &got {
            let k = match o {
                Out::Done(_) => 1,
                Out::Rows(r) if r.is_empty() => 2,
                Out::Rows(_) | Out::Ids(_) | Out::Bytes(_) => 3,
                Out::Err(e) => 10 + hash_bytes(3, e.as_bytes()) % 1000,
                Out::Dead => 4,
                Out::Skip => 5,
                _ => 6,
            };
            let s = match p.steps.get(*i) {
                None => 99,
                Some((_, s)) => {
                    let s = format!("{s:?}");
                    hash_bytes(9, s.split([' ', '{']).next().unwrap_or("").as_bytes())
                }
            };
            let f = d.fired.iter().fold(0u64, |h, n| h * 2 + (*n > 0) as u64);
            cover.states.insert(mix(
                k ^ s ^ mix(f ^ (p.journal as u64) << 20 ^ (p.utf16 as u64) << 24 ^ (p.clients as u64) << 28),
            ));
        }
        cover.take_ctx();
        cover.traces.insert(wd.hash);
        viols
    }
    fn history(&mut self, p: &SqlPlan) -> Vec<String> {
        self.notes = Some(vec![]);
        self.check(p, &mut Cover::default());
        self.notes.take().unwrap()
    }
    fn size(&self, p: &SqlPlan) -> usize {
        p.steps.len()
    }
    fn smaller(&self, p: &SqlPlan, _: Option<(usize, usize)>) -> Vec<SqlPlan> {
        let mut out = vec![];
        for steps in dstcore::world::cuts(&p.steps) {
            out.push(SqlPlan { steps, ..p.clone() });
        }
        for i in 0..p.faults.len() {
            let mut q = p.clone();
            q.faults.remove(i);
            out.push(q);
        }
        let simple = [
            SqlPlan { log: LogMode::Off, ..p.clone() },
            SqlPlan { journal: 0, ..p.clone() },
            SqlPlan { utf16: false, ..p.clone() },
            SqlPlan { clients: 1, ..p.clone() },
            SqlPlan { patience: 0, ..p.clone() },
            SqlPlan { hard_end: false, ..p.clone() },
            SqlPlan { page: 512, sector: 512, cache: 100, noise: 0, ..p.clone() },
        ];
        out.extend(simple.into_iter().filter(|q| q != p));
        for i in 0..p.steps.len() {
            let mut put = |s: Step| {
                let mut q = p.clone();
                q.steps[i].1 = s;
                if q != *p {
                    out.push(q);
                }
            };
            match &p.steps[i].1 {
                Step::Put { kind, id, txt, past, via } => {
                    for t in dstcore::world::simpler_txt(txt) {
                        put(Step::Put { kind: kind.clone(), id: *id, txt: t, past: past.clone(), via: *via });
                    }
                    for t in dstcore::world::simpler_txt(past) {
                        put(Step::Put { kind: kind.clone(), id: *id, txt: txt.clone(), past: t, via: *via });
                    }
                    put(Step::Put { kind: kind.clone(), id: *id, txt: txt.clone(), past: past.clone(), via: 0 });
                }
                Step::Foreign { id, what, txt } => {
                    for t in dstcore::world::simpler_txt(txt) {
                        put(Step::Foreign { id: *id, what: *what, txt: t });
                    }
                }
                Step::Get { kind, id, .. } => put(Step::Get { kind: kind.clone(), id: *id, via: 0 }),
                Step::All { kind, .. } => put(Step::All { kind: kind.clone(), via: 0, nest: 0 }),
                Step::Tx { kind, id, txt, past, puts, end } => {
                    for t in dstcore::world::simpler_txt(txt) {
                        put(Step::Tx { kind: kind.clone(), id: *id, txt: t, past: past.clone(), puts: *puts, end: *end });
                    }
                    put(Step::Tx { kind: kind.clone(), id: *id, txt: txt.clone(), past: past.clone(), puts: 1, end: *end });
                }
                Step::Remote { from, to, txt, past, my, damage } => {
                    for k in 0..damage.len() {
                        let mut damage = damage.clone();
                        damage.remove(k);
                        put(Step::Remote { from: from.clone(), to: to.clone(), txt: txt.clone(), past: past.clone(), my: *my, damage });
                    }
                    for t in dstcore::world::simpler_txt(txt) {
                        put(Step::Remote { from: from.clone(), to: to.clone(), txt: t, past: past.clone(), my: *my, damage: damage.clone() });
                    }
                }
                _ => {}
            }
        }
        out
    }
}
fn brief(o: &Out) -> String {
    match o {
        Out::Rows(r) => {
            let v: Vec<String> = r
                .iter()
                .map(|(i, v)| match v {
                    None => format!("{i}: NULL"),
                    Some(b) => format!("{i}: {:?}", String::from_utf8_lossy(b)),
                })
                .collect();
            format!("rows [{}]", v.join(", "))
        }
        o => format!("{o:?}"),
    }
}
