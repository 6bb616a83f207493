//! The values that value-level checks run on: systematic sweeps and random ones.
use std::sync::OnceLock;

use crate::model::*;
use crate::rng::{dict, mix, Rng};
use crate::run::*;
use crate::v::*;

#[derive(Clone, Copy, Debug)]
pub enum What {
    Mask(u64),
    Variant(usize),
    Int(usize, i64),
    Bool(usize, bool),
    StrLen(usize, usize),
    DictStr(usize, usize),
    ListLen(usize, usize),
}

#[derive(Clone, Copy, Debug)]
pub struct Job {
    pub t: usize,
    pub what: What,
}

fn is_int(t: &Ty) -> bool {
    matches!(t, Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::Enum)
}
fn is_bool(t: &Ty) -> bool {
    matches!(t, Ty::Bool)
}
fn is_str(t: &Ty) -> bool {
    matches!(t, Ty::Str | Ty::Bin)
}
fn is_list(t: &Ty) -> bool {
    matches!(t, Ty::List(_))
}
fn cheap(t: &Ty) -> bool {
    match t {
        Ty::List(e) => !matches!(**e, Ty::St(_)) || matches!(&**e, Ty::St(s) if s.fields.len() <= 3),
        _ => true,
    }
}

fn base(t: usize) -> V {
    let mut r = Rng::new(mix(t as u64 + 77));
    let mut g = G::simple(&mut r, Opt::All);
    gen_v(types()[t].ty(), &mut g)
}

impl Job {
    pub fn build(&self, r: &mut Rng) -> V {
        let ty = types()[self.t].ty();
        match self.what {
            What::Mask(m) => gen_v(ty, &mut G::simple(r, Opt::Mask(m))),
            What::Variant(k) => {
                let mut g = G::new(r);
                g.pick = Some(k);
                gen_v(ty, &mut g)
            }
            What::Int(leaf, x) => {
                let mut v = base(self.t);
                set_leaf(&mut v, ty, leaf, &is_int, &mut |v, t| {
                    *v = match t {
                        Ty::I8 => V::I8(x as i8),
                        Ty::I16 => V::I16(x as i16),
                        Ty::I64 => V::I64(x),
                        _ => V::I32(x as i32),
                    }
                });
                v
            }
            What::Bool(leaf, b) => {
                let mut v = base(self.t);
                set_leaf(&mut v, ty, leaf, &is_bool, &mut |v, _| *v = V::Bool(b));
                v
            }
            What::StrLen(leaf, n) => {
                let mut v = base(self.t);
                set_leaf(&mut v, ty, leaf, &is_str, &mut |v, t| {
                    *v = V::Bin(if n > 4096 {
                        let mut b: Vec<u8> = (0..n).map(|i| (i % 113) as u8).collect();
                        b[n - 1] = b'z';
                        b
                    } else if matches!(t, Ty::Str) {
                        gen_utf8(r, n)
                    } else {
                        r.bytes(n)
                    })
                });
                v
            }
            What::DictStr(leaf, i) => {
                let mut v = base(self.t);
                set_leaf(&mut v, ty, leaf, &is_str, &mut |v, _| *v = V::Bin(dict().strs[i].clone().into_bytes()));
                v
            }
            What::ListLen(leaf, n) => {
                let mut v = base(self.t);
                set_leaf(&mut v, ty, leaf, &is_list, &mut |v, t| {
                    let Ty::List(e) = t else { return };
                    let mut g = G::simple(r, Opt::None);
                    g.list_len = Some(0);
                    g.level = 1;
                    // a few different elements, repeated
                    let el: Vec<V> = (0..n.min(7)).map(|_| gen_v(e, &mut g)).collect();
                    *v = V::List(e.code(), (0..n).map(|i| el[i % 7].clone()).collect());
                });
                v
            }
        }
    }
}

/// lengths at which some encoder might change its mind
fn lengths(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20).collect();
    for k in [31usize, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1] {
        v.push(k);
    }
    for d in &dict().ints {
        for x in [d.wrapping_sub(1), *d, d.wrapping_add(1)] {
            if x >= 0 && x < (4 << 20) {
                v.push(x as usize);
            }
        }
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

/// All systematic jobs. `lvl` 0: interpreter builds; 1: quick; 2: thorough.
pub fn jobs(lvl: u8) -> &'static [Job] {
    static J: [OnceLock<Vec<Job>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    J[lvl as usize].get_or_init(|| build_jobs(lvl as usize))
}

fn build_jobs(lvl: usize) -> Vec<Job> {
    let mut v = vec![];
    for (t, dt) in types().iter().enumerate() {
        let ty = dt.ty();
        let mut push = |what| v.push(Job { t, what });
        if let Ty::St(s) = ty {
            if s.union {
                for k in 0..s.fields.len() {
                    for _ in 0..4 {
                        push(What::Variant(k));
                    }
                }
            } else {
                let n = s.fields.iter().filter(|f| !f.req).count();
                for m in 0..1u64 << n {
                    if lvl > 0 || m < 2 || m == (1 << n) - 1 {
                        push(What::Mask(m));
                    }
                }
            }
        }
        let mut b = base(t);
        let ni = count_leaves(&mut b, ty, &is_int);
        for leaf in 0..ni {
            let mut lo_hi = (0, 0);
            set_leaf(&mut b.clone(), ty, leaf, &is_int, &mut |_, t| {
                lo_hi = match t {
                    Ty::I8 => (-128, 127),
                    Ty::I16 => (-32768, 32767),
                    Ty::I64 => (i64::MIN, i64::MAX),
                    _ => (i32::MIN as i64, i32::MAX as i64),
                }
            });
            let e = edge_ints(lo_hi.0, lo_hi.1);
            let step = match lvl {
                0 => 97,
                _ => 1,
            };
            for x in e.iter().step_by(step) {
                push(What::Int(leaf, *x));
            }
            if lvl == 2 {
                for x in -300..300 {
                    if x >= lo_hi.0 && x <= lo_hi.1 {
                        push(What::Int(leaf, x));
                    }
                }
            }
        }
        for leaf in 0..count_leaves(&mut b, ty, &is_bool) {
            push(What::Bool(leaf, true));
            push(What::Bool(leaf, false));
        }
        for leaf in 0..count_leaves(&mut b, ty, &is_str) {
            if lvl == 0 {
                push(What::StrLen(leaf, 130));
                continue;
            }
            for n in lengths(if lvl == 2 { 4 << 20 } else { (2 << 20) + 1 }) {
                // very long ones only where they are reached directly
                if n > 70_000 && t > 16 && lvl < 2 {
                    continue;
                }
                if n > 70_000 && leaf > 2 && lvl < 2 {
                    continue;
                }
                push(What::StrLen(leaf, n));
            }
            for i in 0..dict().strs.len() {
                if lvl == 2 || (i + leaf + t) % 3 == 0 || t > 4 {
                    push(What::DictStr(leaf, i));
                }
            }
        }
        for leaf in 0..count_leaves(&mut b, ty, &is_list) {
            let mut ch = false;
            set_leaf(&mut b.clone(), ty, leaf, &is_list, &mut |_, t| ch = cheap(t));
            if lvl == 0 {
                push(What::ListLen(leaf, 0));
                push(What::ListLen(leaf, 16));
                continue;
            }
            let max = match (ch, lvl, t > 0) {
                (true, 1, false) => 5000,
                (true, 1, true) => 70_000,
                (true, _, _) => 2 << 20,
                (false, 1, _) => 1100,
                (false, _, _) => 70_000,
            };
            for n in lengths(max) {
                push(What::ListLen(leaf, n));
            }
        }
    }
    v
}

pub fn lvl(ctx: &Ctx) -> u8 {
    match ctx.tier {
        Tier::Mini => 0,
        Tier::Quick => 1,
        Tier::Thorough => 2,
    }
}

/// Runs `f` on every systematic job and on random values.
pub fn values(ctx: &Ctx, quick: u64, thorough: u64, f: impl Fn(&mut Case, &'static dyn DynType, &V) -> Res + Sync) {
    if tiny() {
        return random_values(ctx, "random", quick, thorough, f);
    }
    let js = jobs(lvl(ctx));
    ctx.group("sweep", js.len() as u64, |c| {
        let j = &js[c.idx as usize % js.len()];
        let v = j.build(&mut c.rng);
        c.sample(|| format!("{} {:?}: {}", types()[j.t].name(), j.what, v.short()));
        c.seen_bytes(j.t as u64, format!("{:?}", j.what).as_bytes());
        f(c, &*types()[j.t], &v)
    });
    random_values(ctx, "random", quick, thorough, f);
}

pub fn random_values(ctx: &Ctx, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case, &'static dyn DynType, &V) -> Res + Sync) {
    ctx.group(name, ctx.n(quick, thorough), |c| {
        let t = pick_type(&mut c.rng);
        let v = gen_v(t.ty(), &mut G::new(&mut c.rng));
        c.sample(|| format!("{}: {}", t.name(), v.short()));
        if v.nodes() > 1 {
            c.seen_bytes(crate::rng::fnv(t.name().as_bytes()), &encode(&v));
        }
        f(c, t, &v)
    });
}
