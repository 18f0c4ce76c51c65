// Driver of one shared object under the controlled scheduler (shuttle), appended to the
// glue of a program.  Script on stdin:
//   M iface method np {k z no d}*          shape of a method
//   S id iface how iters seed first n      scenario: scheduler, main drops before joining?
//   T own op...                            one of its n threads; own: 1 has a handle of its own, 0 borrows main's
// Operations: c clone, m<name> call, d drop, p put the handle aside, t take one, u convert to the base, l downcast.
// Prints every distinct log of events as one JSON line.
mod drive {
    use super::*;
    use std::collections::{HashMap, HashSet};
    use std::io::{BufRead, Write};
    pub type E = (u8, usize, usize, u64);          // event, thread, method / other thread, value
    #[derive(Clone)] struct Sc { iface: usize, first: bool, th: Vec<(bool, Vec<Op>)> }
    #[derive(Clone)] enum Op { Clone, Call(usize), Drop, Put, Take, Up, Look }
    struct P { k: u8, z: usize, no: usize, out: bool }
    pub struct Kind { pub name: &'static str, pub clone: unsafe fn(HObj) -> HObj, pub drop: unsafe fn(HObj), pub up: Option<(usize, unsafe fn(HObj) -> HObj)>, pub look: Option<unsafe fn(HObj) -> bool> }

    static mut LOG: Vec<E> = Vec::new();
    static mut COUNT: u64 = 0;
    static mut POOL: Vec<(HObj, usize)> = Vec::new();
    static mut METHODS: Vec<(String, String, Vec<P>)> = Vec::new();
    static mut SEEN: Option<HashSet<Vec<E>>> = None;
    static mut ID: usize = 0;
    static mut RUNS: usize = 0;
    std::shuttle::thread_local! { static ME: std::cell::Cell<usize> = std::cell::Cell::new(0); }
    fn me() -> usize { ME.with(|m| m.get()) }
    fn ev(e: u8, a: usize, v: u64) { let t = me(); unsafe { (*(&raw mut LOG)).push((e, t, a, v)) } }
    fn pause() { std::shuttle::thread::yield_now() }
    fn index(m: &str) -> usize { unsafe { (*(&raw const METHODS)).iter().position(|x| x.1 == m).unwrap_or(999) } }

    // the implementation's bodies
    #[no_mangle] pub unsafe extern "C" fn hz_serve(m: *const u8, v: *mut HV, n: i32) -> i32 {
        let m = index(std::ffi::CStr::from_ptr(m.cast()).to_str().unwrap());
        let n0 = COUNT;
        ev(b'E', m, n0);
        pause();
        let ms: &Vec<(String, String, Vec<P>)> = &*(&raw const METHODS); let ps = &ms[m].2;
        let mut given = HObj { i: 0, c: 0 };
        for (k, p) in ps.iter().enumerate() { if p.k == b'o' && !p.out && n as usize > k { let h = *(*v.add(k)).o; if h.c != 0 { given = h; } } }
        let obj = crate::HZ_KINDS.len() - 1;
        if given.c != 0 && n0 % 2 == 0 {
            ev(b'c', 0, 0); let h = (crate::HZ_KINDS[obj].clone)(given);
            pause();
            ev(b'd', 0, 0); (crate::HZ_KINDS[obj].drop)(h); ev(b'x', 0, 0);
        }
        let fail = n0 % 4 == 3;
        if !fail && given.c != 0 { for (k, p) in ps.iter().enumerate() { if p.k == b'o' && p.out { ev(b'c', 0, 0); *(*v.add(k)).o = (crate::HZ_KINDS[obj].clone)(given); break; } } }
        pause();
        COUNT = n0 + 1;
        ev(b'L', m, n0 + 1);
        if fail { 15 } else { 0 }
    }
    pub fn hz_look() { unsafe { let n0 = COUNT; ev(b'E', 998, n0); pause(); pause(); ev(b'K', 998, COUNT); } }
    #[no_mangle] pub unsafe extern "C" fn hz_gone() { ev(b'f', 0, COUNT) }

    type Own = Vec<(HObj, usize)>;
    unsafe fn exec(t: usize, ops: &[Op], mut own: Own, lent: Option<(HObj, usize)>) -> Own {
        ME.with(|m| m.set(t));
        for o in ops {
            let at = own.last().copied().or(lent);
            match o {
                Op::Clone => if let Some((h, k)) = at { ev(b'c', 0, 0); own.push(((crate::HZ_KINDS[k].clone)(h), k)); }
                Op::Drop => drop1(&mut own),
                Op::Put => if let Some(x) = own.pop() { ev(b'p', 0, 0); (*(&raw mut POOL)).push(x); }
                Op::Take => if let Some(x) = (*(&raw mut POOL)).pop() { ev(b't', 0, 0); own.push(x); }
                Op::Up => if let Some((h, k)) = own.last().copied() { if let Some((b, f)) = crate::HZ_KINDS[k].up { let x = f(h); own.pop(); own.push((x, b)); } }
                Op::Look => if let Some((h, k)) = at {
                    ev(b'C', 998, 0);
                    let me = crate::HZ_KINDS[k].look.map(|f| f(h));
                    if me == Some(true) { ev(b'R', 998, 0); } else { (*(&raw mut LOG)).pop(); }
                }
                Op::Call(m) => if let Some((h, k)) = at { call(*m, h, k, &mut own); }
            }
            pause();
        }
        own
    }
    fn drop1(own: &mut Own) { if let Some((h, k)) = own.pop() { ev(b'd', 0, 0); unsafe { (crate::HZ_KINDS[k].drop)(h) }; ev(b'x', 0, 0); } }
    unsafe fn call(m: usize, h: HObj, k: usize, own: &mut Own) {
        let ms: &Vec<(String, String, Vec<P>)> = &*(&raw const METHODS); let (_, name, ps) = &ms[m];
        let Some(f) = crate::hz_clients.iter().find(|c| c.f.is_some() && is(c.i, crate::HZ_KINDS[k].name) && is(c.m, name)).and_then(|c| c.f) else { return };
        let mut bufs: Vec<Vec<u64>> = ps.iter().map(|p| vec![0u64; p.z / 8 * 2 + 4]).collect();
        let mut objs: Vec<Vec<HObj>> = ps.iter().map(|p| vec![HObj { i: 0, c: 0 }; p.no + 1]).collect();
        let mut v: Vec<HV> = Vec::new();
        for (i, p) in ps.iter().enumerate() { v.push(HV { b: bufs[i].as_mut_ptr().cast(), n: if p.k == b'b' { 1 } else { 0 }, lenout: 0, o: objs[i].as_mut_ptr() }); }
        for (i, p) in ps.iter().enumerate() { if p.k == b'o' && !p.out { objs[i][0] = h; } }
        ev(b'C', m, 0);
        let r = f(h, v.as_mut_ptr());
        ev(b'R', m, r as u32 as u64);
        if r == 0 { for (i, p) in ps.iter().enumerate() { if p.out && p.k == b'o' { for j in 0..p.no { if objs[i][j].c != 0 { own.insert(0, (objs[i][j], crate::HZ_KINDS.len() - 1)); } } } } }
        // an object handed out is a plain object: keep it below the typed handles
    }
    unsafe fn is(p: *const u8, s: &str) -> bool { std::ffi::CStr::from_ptr(p.cast()).to_bytes() == s.as_bytes() }

    unsafe fn once(sc: &Sc) {
        (*(&raw mut LOG)).clear(); COUNT = 0; (*(&raw mut POOL)).clear(); RUNS += 1;
        ME.with(|m| m.set(0));
        let kind = &crate::HZ_KINDS[sc.iface];
        let mk = crate::hz_servers.iter().find(|s| s.f.is_some() && s.bare == 0 && is(s.i, kind.name)).unwrap().f.unwrap();
        let mut h = HObj { i: 0, c: 0 };
        mk(&mut h);
        ev(b'n', 0, 0);
        let mut own: Own = vec![(h, sc.iface)];
        let mut js = Vec::new();
        for (t, (o, ops)) in sc.th.iter().enumerate() {
            let mut mine = Vec::new();
            if *o { ev(b'c', 0, 0); mine.push(((kind.clone)(h), sc.iface)); ev(b'g', t + 1, 0); }
            let ops = ops.clone();
            let (mi, le) = (Bag(mine), Bag(if *o { vec![] } else { vec![(h, sc.iface)] }));
            js.push(std::shuttle::thread::spawn(move || { let (mi, le) = (mi, le); let (mi, le) = (mi.take(), le.take()); let mut o = exec(t + 1, &ops, mi, le.first().copied()); while !o.is_empty() { drop1(&mut o); pause(); } }));
        }
        if sc.first && sc.th.iter().all(|x| x.0) { drop1(&mut own); }
        for j in js { if j.join().is_err() { ev(b'!', 0, 0); } }
        ME.with(|m| m.set(0));
        while let Some(x) = (*(&raw mut POOL)).pop() { ev(b't', 0, 0); own.push(x); }
        while !own.is_empty() { drop1(&mut own); }
        ev(b'z', 0, 0);
        emit();
    }
    struct Bag(Own); unsafe impl Send for Bag {} impl Bag { fn take(self) -> Own { self.0 } }
    unsafe fn emit() {
        let l = &*(&raw const LOG);
        let seen = (*(&raw mut SEEN)).get_or_insert_with(HashSet::new);
        if seen.insert(l.clone()) {
            let s: Vec<String> = l.iter().map(|(e, t, a, v)| format!("[\"{}\",{t},{a},{v}]", *e as char)).collect();
            let o = std::io::stdout(); let mut o = o.lock();
            let _ = writeln!(o, "{{\"s\":{},\"ev\":[{}]}}", ID, s.join(",")); let _ = o.flush();
        }
    }

    pub fn run() {
        use std::shuttle::{scheduler::*, Config, Runner};
        std::panic::set_hook(Box::new(|i| unsafe {
            (*(&raw mut LOG)).push((b'!', 0, 0, 0)); emit(); eprintln!("{i}"); std::process::exit(3);
        }));
        let inp: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
        let kinds: HashMap<&str, usize> = crate::HZ_KINDS.iter().enumerate().map(|(i, k)| (k.name, i)).collect();
        let mut it = inp.iter().peekable();
        while let Some(l) = it.next() {
            let w: Vec<&str> = l.split(' ').collect();
            if w[0] == "M" {
                let n: usize = w[3].parse().unwrap();
                let ps = (0..n).map(|i| { let q = &w[4 + 4 * i..]; P { k: q[0].as_bytes()[0], z: q[1].parse().unwrap(), no: q[2].parse().unwrap(), out: q[3] == "o" } }).collect();
                unsafe { (*(&raw mut METHODS)).push((w[1].into(), w[2].into(), ps)) };
            }
            if w[0] != "S" { continue; }
            let n: usize = w[7].parse().unwrap();
            let th = (0..n).map(|_| {
                let l = it.next().unwrap(); let q: Vec<&str> = l.split(' ').collect();
                (q[1] == "1", q[2..].iter().map(|o| match o.as_bytes()[0] { b'c' => Op::Clone, b'd' => Op::Drop, b'p' => Op::Put, b't' => Op::Take, b'u' => Op::Up, b'l' => Op::Look, _ => Op::Call(index(&o[1..])) }).collect())
            }).collect();
            let sc = Sc { iface: kinds[w[2]], first: w[6] == "1", th };
            let (iters, seed): (usize, u64) = (w[4].parse().unwrap(), w[5].parse().unwrap());
            unsafe { ID = w[1].parse().unwrap(); SEEN = None; RUNS = 0; }
            let mut cfg = Config::new(); cfg.stack_size = 1 << 18; cfg.failure_persistence = std::shuttle::FailurePersistence::None;
            let f = move || unsafe { once(&sc) };
            match w[3] {
                "dfs" => { Runner::new(DfsScheduler::new(Some(iters), false), cfg).run(f); }
                "pct" => { Runner::new(PctScheduler::new_from_seed(seed, 3, iters), cfg).run(f); }
                _ => { Runner::new(RandomScheduler::new_from_seed(seed, iters), cfg).run(f); }
            }
            println!("{{\"s\":{},\"runs\":{},\"logs\":{}}}", unsafe { ID }, unsafe { RUNS }, unsafe { (*(&raw const SEEN)).as_ref().map_or(0, |s| s.len()) });
        }
        println!("{{\"end\":1}}");
    }
}
fn main() { drive::run() }
