//! Per property: which oracles judge a run, and how its histories are generated.

use crate::exec::*;
use crate::gen::{self, Mix};
use crate::model::*;
use crate::rng::Rng;
use crate::world::*;

#[derive(Clone, Copy)]
pub struct Profile {
    /// compare with the reference model
    pub model: bool,
    /// an acknowledged save must load back completely
    pub reload: bool,
    /// sink errors must be reported
    pub report: bool,
    /// a save leaves the workbook alone
    pub unchanged: bool,
    /// harmless disturbances must not be visible
    pub benign: bool,
    /// foreign XML must survive
    pub raw: bool,
    pub pkg: Option<fn(&[u8], bool, &Model) -> Result<(), String>>,
    /// read acknowledged saves with the simulator's own reader
    pub peer: bool,
    pub obs_each: bool,
    /// compare the stored documents themselves: saves of the same workbook (1), and
    /// between runs (2)
    pub docs: u8,
    /// compare with the reference model after every step
    pub each: bool,
    pub keep: fn(&str) -> bool,
}

fn all(_: &str) -> bool {
    true
}
/// Key without the sheet prefix, if it is one of a sheet.
fn sheet_key(k: &str) -> Option<&str> {
    let r = k.strip_prefix('s')?;
    let (n, r) = r.split_once('.')?;
    n.chars().all(|c| c.is_ascii_digit()).then_some(r)
}
fn k_cells(k: &str) -> bool {
    k == "sheets" || sheet_key(k).is_some_and(|k| k.starts_with("cell.") || k == "name")
}
fn k_struct(k: &str) -> bool {
    k == "sheets" || sheet_key(k).is_some_and(|k| !k.starts_with("cell.") && !k.starts_with("cfg."))
}
fn k_styles(k: &str) -> bool {
    ["style.", "fmt.", "font.", "page.", "master.", "valid.", "defstyle."]
        .iter()
        .any(|p| k.starts_with(p))
}
fn k_meta(k: &str) -> bool {
    ["meta.", "cfg.", "script.", "event."].iter().any(|p| k.starts_with(p))
        || sheet_key(k).is_some_and(|k| k.starts_with("cfg."))
}
fn k_files(k: &str) -> bool {
    k.starts_with("file.")
}

pub const PROPS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
];

pub fn profile(p: &str) -> Profile {
    let base = Profile {
        model: false,
        reload: true,
        report: false,
        unchanged: false,
        benign: false,
        raw: false,
        pkg: None,
        peer: false,
        obs_each: false,
        each: false,
        docs: 0,
        keep: all,
    };
    let m = Profile {
        model: true,
        ..base
    };
    match p {
        "C01" => Profile { keep: k_cells, ..m },
        "C02" => Profile { keep: k_struct, ..m },
        "C03" => Profile { keep: k_styles, ..m },
        "C04" => Profile { keep: k_meta, ..m },
        "C05" => Profile {
            keep: k_files,
            raw: true,
            ..m
        },
        "C06" => m,
        "C07" => Profile { report: true, ..m },
        "C08" => Profile {
            unchanged: true,
            docs: 1,
            ..m
        },
        "C09" | "C10" | "C11" | "C19" => m,
        "C20" => Profile { reload: false, ..base },
        "C12" => Profile {
            benign: true,
            docs: 1,
            ..m
        },
        "C13" => Profile {
            obs_each: true,
            benign: true,
            docs: 2,
            ..m
        },
        "C14" => Profile {
            obs_each: true,
            docs: 2,
            ..m
        },
        "C15" => Profile {
            pkg: Some(crate::pkg::valid),
            reload: false,
            ..base
        },
        "C17" => Profile { each: true, ..m },
        "C18" => Profile {
            peer: true,
            reload: false,
            ..m
        },
        _ => base,
    }
}

fn mix(p: &str) -> Mix {
    let m = |cells, sheets, styles, meta, files| Mix {
        cells,
        sheets,
        styles,
        meta,
        files,
    };
    match p {
        "C01" => m(20, 4, 1, 0, 0),
        "C02" => m(8, 20, 1, 0, 0),
        "C03" => m(2, 2, 20, 0, 0),
        "C04" => m(1, 4, 0, 20, 0),
        "C05" => m(3, 1, 1, 1, 6),
        "C10" => m(8, 5, 3, 3, 6),
        "C16" => m(20, 8, 1, 1, 0),
        "C17" | "C18" => m(12, 8, 10, 4, 2),
        _ => m(10, 8, 8, 6, 2),
    }
}

fn clock(r: &mut Rng, wild: bool) -> ClockPlan {
    if !wild {
        return ClockPlan {
            start: 1_700_000_000 + r.below(100_000_000) as i64,
            step: 1_000_000,
            jumps: vec![],
        };
    }
    let start = *r.pick(&[
        0,
        -1,
        -2_000_000_000,
        315_532_799, // 1979-12-31
        315_532_800, // 1980-01-01
        1_700_000_000,
        4_354_819_199, // 2107-12-31
        4_354_819_200,
        9_000_000_000,
        200_000_000_000, // year 8307
        951_782_399,
        1_709_164_800,
    ]);
    let nj = r.below(4);
    ClockPlan {
        start,
        step: *r.pick(&[0, 1, 1_000_000, 1_000_000_000, 3_600_000_000_000, -1_000_000_000]),
        jumps: (0..nj)
            .map(|_| {
                (
                    1 + r.below(30),
                    *r.pick(&[-1, 1, -3600, 3600, -86_400 * 365, 86_400 * 365 * 30, -86_400 * 365 * 60]),
                )
            })
            .collect(),
    }
}

/// Position codes: millionths of the size, or a distance from the end.
fn poscode(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 1_000_000 + r.below(70),
        1 => 1_000_000 + r.below(1500),
        2 => r.below(5000),
        _ => r.below(1_000_000),
    }
}

fn errno(r: &mut Rng) -> i32 {
    *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EPIPE])
}

fn benign(r: &mut Rng, write: bool) -> Vec<Fault> {
    let mut v = Vec::new();
    if write {
        if r.chance(1, 2) {
            v.push(Fault::ShortWrite {
                max: *r.pick(&[1, 2, 3, 7, 64, 511, 4096]),
            });
        }
        if r.chance(1, 3) {
            v.push(Fault::LazySink);
        }
        if r.chance(1, 6) {
            v.push(Fault::CloseErr { errno: libc::EIO });
        }
    } else if r.chance(2, 3) {
        v.push(Fault::ShortRead {
            max: *r.pick(&[1, 2, 3, 7, 64, 511, 4096]),
        });
    }
    if r.chance(1, 2) {
        v.push(Fault::Eintr {
            every: r.range(2, 9) as u32,
        });
    }
    v
}

fn hard_write(r: &mut Rng, crash: bool) -> Vec<Fault> {
    let mut v = match r.below(if crash { 12 } else { 8 }) {
        0..=4 => vec![Fault::WriteErr {
            at: poscode(r),
            errno: errno(r),
            sticky: r.chance(1, 2),
        }],
        5 => vec![Fault::FlushErr {
            nth: r.below(2) as u32,
            errno: errno(r),
            sticky: r.chance(1, 2),
        }],
        6 => vec![Fault::SeekErr {
            nth: r.below(40) as u32,
            errno: libc::EIO,
            sticky: r.chance(1, 2),
        }],
        7 => vec![Fault::OpenErr {
            errno: *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EROFS]),
        }],
        _ => vec![Fault::Crash { at: poscode(r) }],
    };
    if r.chance(1, 3) {
        v.extend(benign(r, true));
    }
    v
}

fn hard_read(r: &mut Rng) -> Vec<Fault> {
    let mut v = match r.below(8) {
        0 => vec![Fault::OpenErr { errno: libc::EACCES }],
        1 => vec![Fault::SeekErr {
            nth: r.below(60) as u32,
            errno: libc::EIO,
            sticky: r.chance(1, 2),
        }],
        _ => vec![Fault::ReadErr {
            at: poscode(r),
            skip: r.below(4) as u32,
            errno: libc::EIO,
            sticky: r.chance(1, 2),
        }],
    };
    if r.chance(1, 2) {
        v.extend(benign(r, false));
    }
    v
}

struct G<'a> {
    r: &'a mut Rng,
    p: &'a str,
    mix: Mix,
    /// Generation follows the model so that most edits apply.
    m: Model,
    out: Vec<Step>,
    slots: u8,
}

impl G<'_> {
    fn edits(&mut self, lo: u64, hi: u64) {
        let n = self.r.range(lo, hi);
        let mut k = 0;
        let mut tries = 0;
        while k < n && tries < n * 4 {
            tries += 1;
            let e = gen::edit(self.r, &self.mix, &self.m);
            if self.p == "C05"
                && matches!(
                    e,
                    Edit::Rename { .. } | Edit::DropSheet { .. } | Edit::CloneSheet { .. }
                )
            {
                continue;
            }
            // a partial load cannot resolve names the library chose
            if self.p == "C16" && format!("{e:?}").contains("\"@") {
                continue;
            }
            let mut m = self.m.clone();
            if e.model(&mut m) {
                self.m = m;
                self.out.push(Step::Edit(e));
                k += 1;
            }
        }
    }
    fn slot(&mut self) -> u8 {
        self.r.below(self.slots as u64) as u8
    }
    fn save(&mut self, slot: u8, fods: bool, faults: Vec<Fault>) {
        let api = *self.r.pick(&[0, 0, 1, 2, 3, 4, 5, 6]);
        self.save_api(slot, fods, api, faults);
    }
    fn save_api(&mut self, slot: u8, fods: bool, api: u8, faults: Vec<Fault>) {
        let arg = self.r.below(9000) as u32;
        self.out.push(Step::Save {
            slot,
            fods,
            api,
            arg,
            faults,
        });
    }
    fn load(&mut self, slot: u8, faults: Vec<Fault>, adopt: bool) {
        let api = self.r.below(4) as u8;
        self.load_api(slot, api, faults, adopt);
    }
    fn load_api(&mut self, slot: u8, api: u8, faults: Vec<Fault>, adopt: bool) {
        let arg = self.r.below(300) as u32;
        self.out.push(Step::Load {
            slot,
            api,
            arg,
            faults,
            adopt,
        });
    }
    fn fods(&mut self, num: u64, den: u64) -> bool {
        self.r.chance(num, den)
    }
}

/// One client's history for the property.
fn history(r: &mut Rng, p: &str, faulty: bool) -> Vec<Step> {
    let mut g = G {
        mix: mix(p),
        p,
        m: Model::default(),
        out: Vec::new(),
        slots: 3,
        r,
    };
    // small documents, and now and then a bigger one
    let (lo, hi) = match g.r.below(10) {
        0 => (1, 4),
        1 => (30, 80),
        _ => (4, 20),
    };
    g.edits(lo, hi);
    match p {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => {
            let cycles = g.r.range(1, 4);
            for _ in 0..cycles {
                let s = g.slot();
                let fods = if p == "C06" { g.fods(1, 2) } else { g.fods(1, 4) };
                if faulty {
                    // disturbed attempts before the one that matters
                    if g.r.chance(1, 2) {
                        let f = hard_write(g.r, false);
                        let s2 = g.slot();
                        let fo2 = g.fods(1, 4);
                        g.save(s2, fo2, f);
                    }
                    let f = if g.r.chance(1, 3) { benign(g.r, true) } else { vec![] };
                    g.save(s, fods, f);
                    if g.r.chance(1, 3) {
                        let s2 = g.slot();
                        let f = hard_write(g.r, true);
                        let fo2 = g.fods(1, 4);
                        g.save(s2, fo2, f);
                    }
                    if g.r.chance(1, 3) {
                        g.out.push(Step::Crash { slot: s });
                    }
                    if g.r.chance(1, 2) {
                        let f = hard_read(g.r);
                        g.load(s, f, false);
                    }
                } else {
                    g.save(s, fods, vec![]);
                }
                if p == "C05" && g.r.chance(2, 3) {
                    let frags = crate::foreign::gen(g.r);
                    g.out.push(Step::Foreign { slot: s, frags });
                    g.load(s, vec![], true);
                } else if g.r.chance(3, 4) {
                    g.load(s, vec![], true);
                }
                g.edits(0, 10);
            }
            let s = g.slot();
            let fods = if p == "C06" { g.fods(1, 2) } else { g.fods(1, 4) };
            g.save(s, fods, vec![]);
            if g.r.chance(1, 2) {
                g.load(s, vec![], true);
                g.save(s, fods, vec![]);
            }
        }
        "C07" => {
            for _ in 0..g.r.range(2, 5) {
                let s = g.slot();
                let fods = g.fods(1, 3);
                let f = if faulty {
                    hard_write(g.r, false)
                } else {
                    benign(g.r, true)
                };
                g.save(s, fods, f);
                if g.r.chance(1, 3) {
                    g.edits(0, 5);
                }
                if faulty && g.r.chance(1, 2) {
                    // the device recovered
                    g.save(s, fods, vec![]);
                }
            }
        }
        "C08" => {
            for _ in 0..g.r.range(1, 4) {
                let s = g.slot();
                let fods = g.fods(1, 3);
                if faulty {
                    let f = hard_write(g.r, false);
                    g.save(s, fods, f);
                }
                for _ in 0..g.r.range(1, 3) {
                    let s = g.slot();
                    let fods = g.fods(1, 3);
                    g.save(s, fods, vec![]);
                }
                if g.r.chance(1, 3) {
                    if g.r.chance(1, 2) {
                        let frags = crate::foreign::gen(g.r);
                        g.out.push(Step::Foreign { slot: s, frags });
                    }
                    g.load(s, vec![], true);
                }
                g.edits(0, 6);
            }
        }
        "C09" => {
            let fods = g.fods(1, 3);
            g.save(0, fods, vec![]);
            for _ in 0..g.r.range(3, 8) {
                let f = if faulty { hard_read(g.r) } else { vec![] };
                g.load(0, f, false);
            }
            g.load(9, vec![], false);
        }
        "C10" => {
            let fods = g.fods(1, 2);
            if g.r.chance(1, 2) {
                g.save(1, fods, vec![]);
            }
            for _ in 0..g.r.range(1, 3) {
                if faulty {
                    let f = hard_write(g.r, true);
                    g.save(0, fods, f);
                    if g.r.chance(1, 3) {
                        let what = Hurt::LostSector(poscode(g.r));
                        g.out.push(Step::Hurt { slot: 0, what });
                    }
                } else {
                    g.save(0, fods, vec![]);
                    let what = Hurt::Truncate(poscode(g.r));
                    g.out.push(Step::Hurt { slot: 0, what });
                }
                for a in 0..4 {
                    if a == 0 || g.r.chance(1, 3) {
                        g.load_api(0, a, vec![], false);
                    }
                }
            }
        }
        "C11" => {
            for _ in 0..g.r.range(2, 5) {
                let fods = g.fods(1, 8);
                g.save(0, fods, vec![]);
                let n = if faulty { g.r.range(1, 3) } else { 0 };
                for _ in 0..n {
                    let what = match g.r.below(8) {
                        0 => Hurt::LostSector(poscode(g.r)),
                        1 => Hurt::SwapSectors(poscode(g.r), poscode(g.r)),
                        2 => Hurt::FlipAny(poscode(g.r), g.r.below(8) as u8),
                        _ => Hurt::Flip(poscode(g.r), g.r.below(8) as u8),
                    };
                    g.out.push(Step::Hurt { slot: 0, what });
                }
                g.load(0, vec![], false);
            }
        }
        "C12" => {
            for _ in 0..g.r.range(1, 3) {
                let fods = g.fods(1, 3);
                let f = if faulty { benign(g.r, true) } else { vec![] };
                g.save(0, fods, f);
                for a in 0..4 {
                    let f = if faulty { benign(g.r, false) } else { vec![] };
                    g.load_api(0, a, f, a == 3);
                }
                g.edits(0, 6);
            }
            let fods = g.fods(1, 3);
            for a in 0..7 {
                let f = if faulty { benign(g.r, true) } else { vec![] };
                g.save_api(0, fods, a, f);
                g.load(0, vec![], false);
            }
        }
        "C13" => {
            for _ in 0..g.r.range(1, 3) {
                let fods = g.fods(1, 4);
                let s = g.slot();
                g.save(s, fods, vec![]);
                g.load(s, vec![], true);
                g.edits(0, 8);
            }
            g.save(0, false, vec![]);
            g.load(0, vec![], true);
        }
        "C14" => {
            for _ in 0..g.r.range(1, 2) {
                let fods = g.fods(1, 3);
                let f = if faulty && g.r.chance(1, 3) {
                    hard_write(g.r, false)
                } else {
                    vec![]
                };
                g.save(0, fods, f);
                g.load(0, vec![], true);
                g.edits(0, 5);
            }
            g.save(0, false, vec![]);
            g.load(0, vec![], true);
        }
        "C16" => {
            for _ in 0..g.r.range(1, 2) {
                let fods = g.fods(1, 3);
                let f = if faulty { benign(g.r, true) } else { vec![] };
                g.save(0, fods, f);
                for _ in 0..g.r.range(2, 5) {
                    let opts = (g.r.chance(1, 2), g.r.chance(1, 2), g.r.chance(1, 2));
                    let api = g.r.below(2) as u8;
                    g.out.push(Step::OptLoad { slot: 0, opts, api });
                }
                if g.r.chance(1, 2) {
                    g.load(0, vec![], true);
                }
                g.edits(0, 8);
            }
        }
        "C19" => {
            for _ in 0..g.r.range(1, 3) {
                let s = g.slot();
                let fods = g.fods(1, 3);
                g.save(s, fods, vec![]);
                if g.r.chance(1, 4) {
                    let frags = crate::foreign::gen(g.r);
                    g.out.push(Step::Foreign { slot: s, frags });
                }
                for _ in 0..g.r.range(1, 2) {
                    let seed = g.r.u64();
                    let mut ways = g.r.u64() as u32;
                    if g.r.chance(1, 2) {
                        ways &= g.r.u64() as u32;
                    }
                    ways &= (1 << crate::rewrite::WAYS.len()) - 1;
                    g.out.push(Step::Rewrite { slot: s, seed, ways });
                    let f = if faulty { benign(g.r, false) } else { vec![] };
                    let adopt = g.r.chance(2, 3);
                    g.load(s, f, adopt);
                }
                g.edits(0, 6);
            }
            let s = g.slot();
            g.save(s, false, vec![]);
        }
        "C20" => {
            for _ in 0..g.r.range(1, 2) {
                let fods = g.fods(1, 2);
                g.save(0, fods, vec![]);
                for _ in 0..g.r.range(3, 8) {
                    let n = if g.r.chance(2, 3) { 1 } else { g.r.range(2, 4) };
                    let tweaks = (0..n).map(|_| g.r.u64()).collect();
                    let api = g.r.below(4) as u8;
                    g.out.push(Step::Broken { slot: 0, tweaks, api });
                }
                g.edits(0, 8);
            }
        }
        _ => {
            // C15, C17, C18: many saves of evolving documents
            for _ in 0..g.r.range(2, 5) {
                let s = g.slot();
                let fods = g.fods(1, 4);
                if faulty && g.r.chance(1, 2) {
                    let f = hard_write(g.r, true);
                    g.save(s, fods, f);
                }
                let f = if faulty { benign(g.r, true) } else { vec![] };
                g.save(s, fods, f);
                if g.r.chance(1, 2) {
                    g.load(s, vec![], true);
                }
                g.edits(0, 8);
            }
        }
    }
    g.out
}

pub fn scenario(p: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(crate::rng::mix(seed, crate::rng::fnv(p.as_bytes())));
    let faulty = seed % 2 == 1;
    let n = if p == "C14" { r.range(2, 3) } else { 1 };
    let clients = (0..n).map(|_| history(&mut r, p, faulty)).collect::<Vec<_>>();
    let mut preempt = Vec::new();
    if n > 1 {
        for _ in 0..r.range(1, 40) {
            preempt.push((r.below(1_000_000), r.below(n) as u32));
        }
        preempt.sort();
    }
    let wild = p == "C13" || faulty && r.chance(1, 4);
    Scenario {
        property: p.into(),
        seed,
        hash_seed: r.u64(),
        clock: clock(&mut r, wild),
        alt: (p == "C13").then(|| (r.u64(), clock(&mut r, true))),
        clients,
        preempt,
    }
}

/// Simulated runs of a check.
pub fn runs(p: &str, quick: bool) -> u64 {
    let q = match p {
        "C14" => 3_000,
        "C12" | "C13" | "C20" => 14_000,
        _ => 30_000,
    };
    if quick {
        q
    } else {
        q * 40
    }
}
