//! The simulated disk: files below /sim/<volume>/.
//!
//! Each file has its contents as the kernel sees them (`cur`) and as the medium holds them (`dur`), and
//! the writes in between. fsync makes a file's writes durable and, as on journalling file systems, all
//! metadata operations before it. Power loss keeps a prefix of the metadata journal and, per file, none,
//! all, a torn prefix or an arbitrary subset of sectors of the writes that were not synced. A killed
//! process loses nothing that it wrote.
use crate::core::{self, event, fault, note, sim};
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1 << 22;

#[derive(Clone, Debug)]
pub enum WOp {
    Write { off: u64, data: Vec<u8> },
    Trunc { len: u64 },
}
#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub dir: bool,
    pub cur: Vec<u8>,
    pub dur: Vec<u8>,
    pub pend: Vec<WOp>,
    pub ents: BTreeMap<String, u64>,
    pub dents: BTreeMap<String, u64>,
    pub lock: Option<i32>,
    pub mtime: u64,
}
#[derive(Clone, Debug)]
enum Meta {
    Link { dir: u64, name: String, ino: u64 },
    Unlink { dir: u64, name: String },
    Rename { sd: u64, sn: String, dd: u64, dn: String },
}
#[derive(Default)]
pub struct Volume {
    journal: Vec<Meta>,
    pub capacity: Option<u64>,
    pub slow_ns: u64,
}
#[derive(Clone, Debug)]
pub struct OpenFile {
    pub ino: u64,
    pub pos: u64,
    pub append: bool,
    pub read: bool,
    pub write: bool,
    pub group: u32,
    pub path: String,
    pub vol: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Eio,
    Enospc,
    Short,
    Eintr,
    Delay,
    /// the process dies before the operation / with part of it done / after it
    CrashBefore,
    CrashPartial,
    CrashAfter,
}
#[derive(Clone, Debug)]
pub struct IoFault {
    pub vol: String,
    /// substring of the path, empty for any
    pub path: String,
    /// 'r' read, 'w' write, 's' sync, 'o' open/create, 't' truncate, 'n' rename/unlink/mkdir, 'm' any mutation (w,s,o,t,n), '*' any
    pub class: char,
    /// fires at the nth matching operation from now (0 = next)
    pub nth: u64,
    /// and at the following `times - 1`
    pub times: u64,
    pub kind: Kind,
    pub arg: u64,
    pub hit: u64,
}
#[derive(Default)]
pub struct Disk {
    pub inodes: BTreeMap<u64, Inode>,
    pub vols: BTreeMap<String, Volume>,
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    pub next_ino: u64,
    pub faults: Vec<IoFault>,
    /// Files a fault cut a write short in.
    pub cut_short: std::collections::BTreeSet<String>,
    pub dirs: BTreeMap<usize, (Vec<(String, u64, bool)>, usize, i32, String)>,
    /// mutating operations seen, by volume
    pub mut_ops: BTreeMap<String, u64>,
    pub short_rate: u64,
    /// a power loss keeps changes of a file's length in order with the writes around them
    pub ordered_len: bool,
}

pub type R<T> = Result<T, i32>;

pub fn is_sim(path: &str) -> bool {
    path == "/sim" || path.starts_with("/sim/")
}
fn split(path: &str) -> Vec<&str> {
    path.split('/').filter(|s| !s.is_empty() && *s != ".").collect()
}
fn vol_of(path: &str) -> String {
    split(path).get(1).copied().unwrap_or("").to_string()
}

impl Disk {
    fn ino(&mut self, n: u64) -> &mut Inode {
        self.inodes.get_mut(&n).expect("inode")
    }
    fn root(&mut self) -> u64 {
        if !self.inodes.contains_key(&1) {
            self.inodes.insert(1, Inode { dir: true, ..Default::default() });
            self.next_ino = 2;
            self.next_fd = FD_BASE;
        }
        1
    }
    /// Resolve to (parent inode, name, inode if it exists).
    fn walk(&mut self, path: &str) -> R<(u64, String, Option<u64>)> {
        let mut cur = self.root();
        let mut parts: Vec<&str> = vec![];
        for p in &split(path)[1..] {
            if *p == ".." {
                parts.pop();
            } else {
                parts.push(p);
            }
        }
        if parts.is_empty() {
            return Ok((1, String::new(), Some(1)));
        }
        for p in &parts[..parts.len() - 1] {
            if !self.inodes[&cur].dir {
                return Err(libc::ENOTDIR);
            }
            cur = *self.inodes[&cur].ents.get(*p).ok_or(libc::ENOENT)?;
        }
        if !self.inodes[&cur].dir {
            return Err(libc::ENOTDIR);
        }
        let name = parts[parts.len() - 1].to_string();
        let i = self.inodes[&cur].ents.get(&name).copied();
        Ok((cur, name, i))
    }
    fn meta(&mut self, vol: &str, m: Meta) {
        self.vols.entry(vol.to_string()).or_default().journal.push(m);
    }
    fn apply_meta(&mut self, m: &Meta) {
        match m {
            Meta::Link { dir, name, ino } => {
                if let Some(d) = self.inodes.get_mut(dir) {
                    d.dents.insert(name.clone(), *ino);
                }
            }
            Meta::Unlink { dir, name } => {
                if let Some(d) = self.inodes.get_mut(dir) {
                    d.dents.remove(name);
                }
            }
            Meta::Rename { sd, sn, dd, dn } => {
                let i = self.inodes.get_mut(sd).and_then(|d| d.dents.remove(sn));
                if let (Some(i), Some(d)) = (i, self.inodes.get_mut(dd)) {
                    d.dents.insert(dn.clone(), i);
                }
            }
        }
    }
    /// Create the volume's directory, durably.
    pub fn mkvol(&mut self, vol: &str) {
        let root = self.root();
        if self.inodes[&root].ents.contains_key(vol) {
            return;
        }
        let n = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(n, Inode { dir: true, ..Default::default() });
        let r = self.ino(root);
        r.ents.insert(vol.to_string(), n);
        r.dents.insert(vol.to_string(), n);
    }
    fn used(&self, vol: &str) -> u64 {
        // Sum over reachable files of the volume
        fn go(d: &Disk, i: u64) -> u64 {
            let n = &d.inodes[&i];
            if n.dir {
                n.ents.values().map(|c| go(d, *c)).sum()
            } else {
                n.cur.len() as u64
            }
        }
        self.inodes.get(&1).and_then(|r| r.ents.get(vol)).map(|i| go(self, *i)).unwrap_or(0)
    }
    pub fn close_group(&mut self, g: u32) {
        let fds: Vec<i32> = self.fds.iter().filter(|(_, f)| f.group == g).map(|(k, _)| *k).collect();
        for fd in fds {
            self.close(fd);
        }
    }
    pub fn close(&mut self, fd: i32) {
        if let Some(f) = self.fds.remove(&fd) {
            if let Some(i) = self.inodes.get_mut(&f.ino) {
                if i.lock == Some(fd) {
                    i.lock = None;
                }
            }
        }
    }
    /// Which fault, if any, this operation meets. CrashAfter is returned too, for the caller to act on.
    fn meets(&mut self, class: char, path: &str, vol: &str) -> Option<(Kind, u64)> {
        let mut got = None;
        let mutating = matches!(class, 'w' | 's' | 'o' | 't' | 'n');
        for f in self.faults.iter_mut() {
            if !(f.class == class || f.class == '*' || (f.class == 'm' && mutating)) {
                continue;
            }
            if f.vol != vol || !path.contains(f.path.as_str()) {
                continue;
            }
            let h = f.hit;
            f.hit += 1;
            // A failing read or write with an argument first moves that many bytes, then fails.
            let partial = matches!(class, 'w' | 'r') && f.arg > 0 && matches!(f.kind, Kind::Eio | Kind::Enospc);
            if h >= f.nth && h < f.nth + f.times + partial as u64 && got.is_none() {
                got = Some(if partial && h == f.nth { (Kind::Short, f.arg) } else { (f.kind.clone(), f.arg) });
            }
        }
        got
    }
    fn sync_ino(&mut self, ino: u64, vol: &str) {
        let n = self.ino(ino);
        let pend = std::mem::take(&mut n.pend);
        for p in pend {
            apply(&mut n.dur, &p);
        }
        let j = std::mem::take(&mut self.vols.entry(vol.to_string()).or_default().journal);
        for m in &j {
            self.apply_meta(m);
        }
    }
    /// Lose what was not made durable on this volume. mode: 0 everything unsynced lost, 1 nothing lost,
    /// 2 a torn prefix per file, 3 an arbitrary subset of sectors per file, 4 a mixture per file.
    pub fn power_loss(&mut self, vol: &str, mode: u64, rng: &mut Rng) {
        fault("power_loss");
        let ordered = self.ordered_len;
        let j = std::mem::take(&mut self.vols.entry(vol.to_string()).or_default().journal);
        let keep = match mode {
            0 => 0,
            1 => j.len(),
            _ => rng.below(j.len() as u64 + 1) as usize,
        };
        if keep < j.len() {
            fault("metadata_ops_lost");
        }
        for m in &j[..keep] {
            self.apply_meta(m);
        }
        // contents, in inode order
        let Some(root) = self.inodes.get(&1).and_then(|r| r.ents.get(vol)).copied() else { return };
        let mut reach = vec![];
        let mut stack = vec![root];
        while let Some(i) = stack.pop() {
            let n = self.inodes.get_mut(&i).unwrap();
            if n.dir {
                n.ents = n.dents.clone();
                stack.extend(n.ents.values().copied());
            } else {
                reach.push(i);
            }
        }
        reach.sort();
        for i in reach {
            let n = self.inodes.get_mut(&i).unwrap();
            n.lock = None;
            let pend = std::mem::take(&mut n.pend);
            if pend.is_empty() {
                n.cur = n.dur.clone();
                continue;
            }
            let m = if mode == 4 { rng.below(4) } else { mode };
            match m {
                0 => fault("unsynced_writes_lost"),
                1 => {
                    for p in &pend {
                        apply(&mut n.dur, p);
                    }
                }
                2 => {
                    let k = rng.below(pend.len() as u64 + 1) as usize;
                    for p in &pend[..k] {
                        apply(&mut n.dur, p);
                    }
                    if let Some(WOp::Write { off, data }) = pend.get(k) {
                        let mut t = rng.below(data.len() as u64 + 1) as usize;
                        if *off as usize + t < n.dur.len() {
                            // a sector is overwritten whole or not at all
                            t = ((*off as usize + t) / 512 * 512).saturating_sub(*off as usize);
                        }
                        if t > 0 {
                            apply(&mut n.dur, &WOp::Write { off: *off, data: data[..t].to_vec() });
                            fault("torn_write");
                        }
                    }
                    if k < pend.len() {
                        fault("unsynced_suffix_lost");
                    }
                }
                _ => {
                    fault("unsynced_sectors_reordered");
                    for p in &pend {
                        match p {
                            WOp::Trunc { .. } => {
                                if ordered || rng.chance(1, 2) {
                                    apply(&mut n.dur, p);
                                }
                            }
                            WOp::Write { off, data } => {
                                let mut a = 0usize;
                                while a < data.len() {
                                    let abs = *off + a as u64;
                                    let e = (((abs / 512) + 1) * 512 - *off).min(data.len() as u64) as usize;
                                    if rng.chance(1, 2) {
                                        apply(&mut n.dur, &WOp::Write { off: abs, data: data[a..e].to_vec() });
                                    }
                                    a = e;
                                }
                            }
                        }
                    }
                }
            }
            n.cur = n.dur.clone();
        }
    }
    /// Everything written so far becomes durable (a clean unmount), pages a failed fsync dropped included.
    pub fn sync_all(&mut self, vol: &str) {
        let j = std::mem::take(&mut self.vols.entry(vol.to_string()).or_default().journal);
        for m in &j {
            self.apply_meta(m);
        }
        let Some(root) = self.inodes.get(&1).and_then(|r| r.ents.get(vol)).copied() else { return };
        let mut stack = vec![root];
        while let Some(i) = stack.pop() {
            let n = self.ino(i);
            if n.dir {
                stack.extend(n.ents.values().copied());
            } else {
                n.pend.clear();
                n.dur = n.cur.clone();
            }
        }
    }
    pub fn peek(&mut self, path: &str) -> Option<Vec<u8>> {
        let (_, _, i) = self.walk(path).ok()?;
        i.filter(|i| !self.inodes[i].dir).map(|i| self.inodes[&i].cur.clone())
    }
    /// What a power cut that loses everything not synced would leave of the file.
    pub fn peek_durable(&mut self, path: &str) -> Option<Vec<u8>> {
        let (_, _, i) = self.walk(path).ok()?;
        i.filter(|i| !self.inodes[i].dir).map(|i| self.inodes[&i].dur.clone())
    }
    /// Damage at rest: flip bits, or cut the file.
    pub fn poke(&mut self, path: &str, f: impl FnOnce(&mut Vec<u8>)) -> bool {
        let Ok((_, _, Some(i))) = self.walk(path) else { return false };
        let n = self.ino(i);
        f(&mut n.cur);
        n.dur = n.cur.clone();
        n.pend.clear();
        true
    }
    pub fn list(&mut self, path: &str) -> Vec<String> {
        match self.walk(path) {
            Ok((_, _, Some(i))) => self.inodes[&i].ents.keys().cloned().collect(),
            _ => vec![],
        }
    }
    /// Every file below path.
    pub fn files(&mut self, path: &str) -> Vec<String> {
        let mut out = vec![];
        let mut stack = vec![path.to_string()];
        while let Some(p) = stack.pop() {
            if let Ok((_, _, Some(i))) = self.walk(&p) {
                if self.inodes[&i].dir {
                    for k in self.inodes[&i].ents.keys() {
                        stack.push(format!("{p}/{k}"));
                    }
                } else {
                    out.push(p);
                }
            }
        }
        out.sort();
        out
    }
    /// Copy a whole tree to another volume as it is now, durably.
    pub fn copy_vol(&mut self, from: &str, to: &str) {
        self.mkvol(to);
        let root = self.inodes[&1].ents[from];
        let dst = self.inodes[&1].ents[to];
        let mut stack = vec![(root, dst)];
        while let Some((s, d)) = stack.pop() {
            let ents: Vec<(String, u64)> = self.inodes[&s].ents.iter().map(|(k, v)| (k.clone(), *v)).collect();
            for (k, i) in ents {
                let src = self.inodes[&i].clone();
                let n = self.next_ino;
                self.next_ino += 1;
                let mut new = Inode { dir: src.dir, ..Default::default() };
                if !src.dir {
                    new.cur = src.cur.clone();
                    new.dur = src.cur.clone();
                }
                self.inodes.insert(n, new);
                let dn = self.ino(d);
                dn.ents.insert(k.clone(), n);
                dn.dents.insert(k, n);
                if src.dir {
                    stack.push((i, n));
                }
            }
        }
    }
}
fn apply(buf: &mut Vec<u8>, op: &WOp) {
    match op {
        WOp::Write { off, data } => {
            let end = *off as usize + data.len();
            if buf.len() < end {
                buf.resize(end, 0);
            }
            buf[*off as usize..end].copy_from_slice(data);
        }
        WOp::Trunc { len } => buf.resize(*len as usize, 0),
    }
}

// ---- the calls, as the interposer makes them --------------------------------------------------------

fn tick() {
    let s = sim();
    s.stats.io_ops += 1;
    s.boost += 2_000 + s.ent.below(30_000);
}
fn crash_here(what: &str) -> ! {
    fault("process_killed_in_io");
    let g = core::my_group();
    sim().groups[g as usize].crashed_at = what.to_string();
    core::kill_group(g);
    unreachable!()
}
enum Gate {
    Go,
    Err(i32),
    Short(u64),
    After,
}
fn gate(class: char, path: &str, vol: &str) -> Gate {
    tick();
    let d = &mut sim().disk;
    if matches!(class, 'w' | 's' | 'o' | 't' | 'n') {
        *d.mut_ops.entry(vol.to_string()).or_insert(0) += 1;
    }
    let slow = d.vols.get(vol).map(|v| v.slow_ns).unwrap_or(0);
    if slow > 0 {
        core::sleep_ns(slow);
    }
    event(class as u64, 0);
    match sim().disk.meets(class, path, vol) {
        None => Gate::Go,
        Some((k, arg)) => {
            note(|| format!("io fault {k:?} at {class} {path}"));
            match k {
                Kind::Eio => {
                    fault(match class {
                        'r' => "read_eio",
                        'w' => "write_eio",
                        's' => "fsync_eio",
                        'o' => "open_eio",
                        't' => "truncate_eio",
                        _ => "io_eio",
                    });
                    Gate::Err(libc::EIO)
                }
                Kind::Enospc => {
                    fault("enospc");
                    Gate::Err(libc::ENOSPC)
                }
                Kind::Short => {
                    if matches!(class, 'r' | 'w') {
                        fault("short_io");
                        Gate::Short(arg)
                    } else {
                        Gate::Go
                    }
                }
                Kind::Eintr => {
                    if matches!(class, 'r' | 'w') {
                        fault("eintr");
                        Gate::Err(libc::EINTR)
                    } else {
                        Gate::Go
                    }
                }
                Kind::Delay => {
                    fault("io_delay");
                    core::sleep_ns(arg);
                    Gate::Go
                }
                Kind::CrashBefore => crash_here(&format!("before {class} {path}")),
                Kind::CrashPartial => {
                    if class == 'w' {
                        Gate::Short(u64::MAX)
                    } else {
                        crash_here(&format!("at {class} {path}"))
                    }
                }
                Kind::CrashAfter => Gate::After,
            }
        }
    }
}
fn after(g: &Gate, what: &str, path: &str) {
    if matches!(g, Gate::After) {
        crash_here(&format!("after {what} {path}"));
    }
    core::point();
}

pub fn open(path: &str, flags: i32) -> R<i32> {
    let vol = vol_of(path);
    let create = flags & libc::O_CREAT != 0;
    let g = gate(if create || flags & libc::O_TRUNC != 0 { 'o' } else { 'p' }, path, &vol);
    if let Gate::Err(e) = g {
        return Err(e);
    }
    let d = &mut sim().disk;
    let (dir, name, ino) = d.walk(path)?;
    let ino = match ino {
        Some(i) => {
            if create && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            let acc = flags & libc::O_ACCMODE;
            if d.inodes[&i].dir && acc != libc::O_RDONLY {
                return Err(libc::EISDIR);
            }
            if !d.inodes[&i].dir && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                let n = d.ino(i);
                n.cur.clear();
                n.pend.push(WOp::Trunc { len: 0 });
            }
            i
        }
        None => {
            if !create {
                return Err(libc::ENOENT);
            }
            let n = d.next_ino;
            d.next_ino += 1;
            d.inodes.insert(n, Inode::default());
            d.ino(dir).ents.insert(name.clone(), n);
            d.meta(&vol, Meta::Link { dir, name, ino: n });
            n
        }
    };
    let fd = d.next_fd;
    d.next_fd += 1;
    let acc = flags & libc::O_ACCMODE;
    d.fds.insert(
        fd,
        OpenFile {
            ino,
            pos: 0,
            append: flags & libc::O_APPEND != 0,
            read: acc != libc::O_WRONLY,
            write: acc != libc::O_RDONLY,
            group: core::my_group(),
            path: path.to_string(),
            vol,
        },
    );
    if create {
        note(|| format!("open+create {path}"));
    }
    after(&g, "open", path);
    Ok(fd)
}
pub fn read(fd: i32, buf: &mut [u8], at: Option<u64>) -> R<usize> {
    let f = sim().disk.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
    if !f.read {
        return Err(libc::EBADF);
    }
    if sim().disk.inodes[&f.ino].dir {
        return Err(libc::EISDIR);
    }
    let g = gate('r', &f.path, &f.vol);
    let mut want = buf.len();
    match g {
        Gate::Err(e) => return Err(e),
        Gate::Short(n) if want > 1 => want = ((n % want as u64) as usize).max(1),
        _ => {}
    }
    let s = sim();
    if s.disk.short_rate > 0 && want > 1 && s.ent.chance(1, s.disk.short_rate) {
        want = 1 + s.ent.below(want as u64 - 1) as usize;
        fault("short_read");
    }
    let d = &mut s.disk;
    let pos = at.unwrap_or(d.fds[&fd].pos);
    let cur = &d.inodes[&f.ino].cur;
    let a = (pos as usize).min(cur.len());
    let e = (a + want).min(cur.len());
    buf[..e - a].copy_from_slice(&cur[a..e]);
    if at.is_none() {
        d.fds.get_mut(&fd).unwrap().pos = pos + (e - a) as u64;
    }
    after(&g, "read", &f.path);
    Ok(e - a)
}
pub fn write(fd: i32, buf: &[u8], at: Option<u64>) -> R<usize> {
    let f = sim().disk.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
    if !f.write {
        return Err(libc::EBADF);
    }
    let g = gate('w', &f.path, &f.vol);
    let mut n = buf.len();
    let mut die = false;
    match g {
        Gate::Err(e) => return Err(e),
        Gate::Short(u64::MAX) => {
            // a write is interrupted between pages of the file
            let pos = if f.append { sim().disk.inodes[&f.ino].cur.len() as u64 } else { at.unwrap_or(sim().disk.fds[&fd].pos) };
            let cut = pos + sim().ent.below(n as u64 + 1);
            n = if cut == pos + n as u64 { n } else { (cut / 4096 * 4096).saturating_sub(pos) as usize };
            die = true;
        }
        Gate::Short(k) if n > 1 => n = ((k % n as u64) as usize).max(1),
        _ => {}
    }
    let s = sim();
    if s.disk.short_rate > 0 && n > 1 && s.ent.chance(1, s.disk.short_rate) {
        n = 1 + s.ent.below(n as u64 - 1) as usize;
        fault("short_write");
    }
    let cap = s.disk.vols.get(&f.vol).and_then(|v| v.capacity);
    let d = &mut s.disk;
    let len = d.inodes[&f.ino].cur.len() as u64;
    let pos = if f.append { len } else { at.unwrap_or(d.fds[&fd].pos) };
    if let Some(cap) = cap {
        let grow = (pos + n as u64).saturating_sub(len);
        if grow > 0 {
            let free = cap.saturating_sub(d.used(&f.vol));
            if grow > free {
                let can = (len + free).saturating_sub(pos) as usize;
                fault("disk_full");
                if can == 0 {
                    return Err(libc::ENOSPC);
                }
                n = can.min(n);
            }
        }
    }
    if n < buf.len() && matches!(g, Gate::Short(_)) {
        d.cut_short.insert(f.path.clone());
    }
    let op = WOp::Write { off: pos, data: buf[..n].to_vec() };
    let ino = d.ino(f.ino);
    apply(&mut ino.cur, &op);
    if n > 0 {
        ino.pend.push(op);
    }
    if at.is_none() || f.append {
        d.fds.get_mut(&fd).unwrap().pos = pos + n as u64;
    }
    note(|| format!("write {} off={} len={}", f.path, pos, n));
    if die {
        fault("partial_write_at_kill");
        crash_here(&format!("in write {}", f.path));
    }
    after(&g, "write", &f.path);
    Ok(n)
}
pub fn sync(fd: i32) -> R<()> {
    let f = sim().disk.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
    let g = gate('s', &f.path, &f.vol);
    if let Gate::Err(e) = g {
        // As on Linux: the dirty pages are dropped from writeback, and a later fsync reports success.
        let s = sim();
        if s.ent.chance(1, 2) {
            let ino = s.disk.ino(f.ino);
            ino.pend.clear();
            fault("fsync_failed_pages_dropped");
        }
        return Err(e);
    }
    sim().disk.sync_ino(f.ino, &f.vol);
    note(|| format!("fsync {}", f.path));
    after(&g, "fsync", &f.path);
    Ok(())
}
pub fn truncate(fd: i32, len: u64) -> R<()> {
    let f = sim().disk.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
    if !f.write {
        return Err(libc::EINVAL);
    }
    let g = gate('t', &f.path, &f.vol);
    if let Gate::Err(e) = g {
        return Err(e);
    }
    let d = &mut sim().disk;
    let cap = d.vols.get(&f.vol).and_then(|v| v.capacity);
    if let Some(cap) = cap {
        let cur = d.inodes[&f.ino].cur.len() as u64;
        if len > cur && len - cur > cap.saturating_sub(d.used(&f.vol)) {
            fault("disk_full");
            return Err(libc::ENOSPC);
        }
    }
    let ino = d.ino(f.ino);
    let op = WOp::Trunc { len };
    apply(&mut ino.cur, &op);
    ino.pend.push(op);
    note(|| format!("truncate {} len={}", f.path, len));
    after(&g, "truncate", &f.path);
    Ok(())
}
pub fn seek(fd: i32, off: i64, whence: i32) -> R<u64> {
    let d = &mut sim().disk;
    let f = d.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => f.pos as i64,
        libc::SEEK_END => d.inodes[&f.ino].cur.len() as i64,
        _ => return Err(libc::EINVAL),
    };
    let p = base + off;
    if p < 0 {
        return Err(libc::EINVAL);
    }
    d.fds.get_mut(&fd).unwrap().pos = p as u64;
    Ok(p as u64)
}
pub fn dup(fd: i32) -> R<i32> {
    let d = &mut sim().disk;
    let f = d.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
    let n = d.next_fd;
    d.next_fd += 1;
    d.fds.insert(n, f);
    Ok(n)
}
pub fn rename(a: &str, b: &str) -> R<()> {
    let vol = vol_of(a);
    let g = gate('n', b, &vol);
    if let Gate::Err(e) = g {
        return Err(e);
    }
    let d = &mut sim().disk;
    let (sd, sn, i) = d.walk(a)?;
    let i = i.ok_or(libc::ENOENT)?;
    let (dd, dn, t) = d.walk(b)?;
    if let Some(t) = t {
        if d.inodes[&t].dir && !d.inodes[&t].ents.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        if d.inodes[&t].dir && !d.inodes[&i].dir {
            return Err(libc::EISDIR);
        }
    }
    d.ino(sd).ents.remove(&sn);
    d.ino(dd).ents.insert(dn.clone(), i);
    d.meta(&vol, Meta::Rename { sd, sn, dd, dn });
    note(|| format!("rename {a} -> {b}"));
    after(&g, "rename", b);
    Ok(())
}
pub fn unlink(path: &str, rmdir: bool) -> R<()> {
    let vol = vol_of(path);
    let g = gate('n', path, &vol);
    if let Gate::Err(e) = g {
        return Err(e);
    }
    let d = &mut sim().disk;
    let (dir, name, i) = d.walk(path)?;
    let i = i.ok_or(libc::ENOENT)?;
    let n = &d.inodes[&i];
    if rmdir {
        if !n.dir {
            return Err(libc::ENOTDIR);
        }
        if !n.ents.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
    } else if n.dir {
        return Err(libc::EISDIR);
    }
    d.ino(dir).ents.remove(&name);
    d.meta(&vol, Meta::Unlink { dir, name });
    note(|| format!("unlink {path}"));
    after(&g, "unlink", path);
    Ok(())
}
pub fn mkdir(path: &str) -> R<()> {
    let vol = vol_of(path);
    let d = &mut sim().disk;
    let (dir, name, i) = d.walk(path)?;
    if i.is_some() {
        return Err(libc::EEXIST);
    }
    let g = gate('n', path, &vol);
    if let Gate::Err(e) = g {
        return Err(e);
    }
    let d = &mut sim().disk;
    let n = d.next_ino;
    d.next_ino += 1;
    d.inodes.insert(n, Inode { dir: true, ..Default::default() });
    d.ino(dir).ents.insert(name.clone(), n);
    d.meta(&vol, Meta::Link { dir, name, ino: n });
    after(&g, "mkdir", path);
    Ok(())
}
/// (inode, is a directory, size)
pub fn stat(path: &str) -> R<(u64, bool, u64)> {
    let d = &mut sim().disk;
    let (_, _, i) = d.walk(path)?;
    let i = i.ok_or(libc::ENOENT)?;
    let n = &d.inodes[&i];
    Ok((i, n.dir, n.cur.len() as u64))
}
pub fn fstat(fd: i32) -> R<(u64, bool, u64)> {
    let d = &mut sim().disk;
    let f = d.fds.get(&fd).ok_or(libc::EBADF)?;
    let n = &d.inodes[&f.ino];
    Ok((f.ino, n.dir, n.cur.len() as u64))
}
pub fn flock(fd: i32, op: i32) -> R<()> {
    loop {
        let d = &mut sim().disk;
        let f = d.fds.get(&fd).cloned().ok_or(libc::EBADF)?;
        let n = d.ino(f.ino);
        if op & libc::LOCK_UN != 0 {
            n.lock = None;
            return Ok(());
        }
        // shared locks are treated as no conflict with one another only when no exclusive holder exists
        if op & libc::LOCK_SH != 0 {
            if n.lock.is_none() || n.lock == Some(fd) {
                return Ok(());
            }
        } else if n.lock.is_none() || n.lock == Some(fd) {
            n.lock = Some(fd);
            return Ok(());
        }
        if op & libc::LOCK_NB != 0 {
            return Err(libc::EWOULDBLOCK);
        }
        core::sleep_ns(1_000_000);
    }
}
