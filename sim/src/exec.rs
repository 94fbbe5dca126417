//! Executes a scenario: clients editing, saving, crashing and loading documents
//! on the simulated machine, judged against the model or against an undisturbed run.

use crate::gen_steps::Profile;
use crate::model::*;
use crate::observe::observe;
use crate::rng::{fnv, mix};
use crate::sched::{self, Sched, Schedule};
use crate::world::*;
use serde::{Deserialize, Serialize};
use spreadsheet_ods::*;
use std::collections::BTreeMap;
use std::io::{BufReader, BufWriter, Cursor};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hurt {
    /// Keep only the first part of the file (position code).
    Truncate(u64),
    /// Flip one bit of the payload of one member (position code, bit).
    Flip(u64, u8),
    /// Flip one bit anywhere in the file.
    FlipAny(u64, u8),
    /// A lost write: one 512-byte sector reads as zeros.
    LostSector(u64),
    /// Two sectors swapped (misdirected write).
    SwapSectors(u64, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Edit(Edit),
    Save {
        slot: u8,
        fods: bool,
        api: u8,
        arg: u32,
        faults: Vec<Fault>,
    },
    Load {
        slot: u8,
        api: u8,
        arg: u32,
        faults: Vec<Fault>,
        adopt: bool,
    },
    /// content_only, use_repeat, ignore_empty
    OptLoad {
        slot: u8,
        opts: (bool, bool, bool),
        api: u8,
    },
    /// The process dies; the client starts over from a slot that was acknowledged.
    Crash { slot: u8 },
    Hurt { slot: u8, what: Hurt },
    /// Another program edited the stored document: adds foreign XML.
    Foreign { slot: u8, frags: Vec<crate::foreign::Frag> },
    /// Another program stored the same document in other bytes.
    Rewrite { slot: u8, seed: u64, ways: u32 },
    /// Another program wrote something that is hardly a document; each number is a deformation.
    Broken { slot: u8, tweaks: Vec<u64>, api: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    pub hash_seed: u64,
    pub clock: ClockPlan,
    /// Second world for the properties that compare two worlds.
    pub alt: Option<(u64, ClockPlan)>,
    pub clients: Vec<Vec<Step>>,
    /// (position in millionths of the clients' total steps, client)
    pub preempt: Vec<(u64, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub kind: String,
    pub client: usize,
    pub step: usize,
    pub detail: String,
}

#[derive(Default, Debug, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub fired: BTreeMap<String, u64>,
    pub saves: u64,
    pub saves_ok: u64,
    pub saves_err: u64,
    pub loads: u64,
    pub loads_ok: u64,
    pub loads_err: u64,
    pub edits: u64,
    pub edits_skipped: u64,
    pub crashes: u64,
    pub checks: u64,
    pub skipped: u64,
    pub io_calls: u64,
    pub sim_s: f64,
    pub clock_reads: u64,
    pub switches: u64,
    pub steps: u64,
    pub digest: u64,
    /// I/O trace and schedule alone, without document content.
    pub trace: u64,
    pub foreign_paths: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        self.saves += o.saves;
        self.saves_ok += o.saves_ok;
        self.saves_err += o.saves_err;
        self.loads += o.loads;
        self.loads_ok += o.loads_ok;
        self.loads_err += o.loads_err;
        self.edits += o.edits;
        self.edits_skipped += o.edits_skipped;
        self.crashes += o.crashes;
        self.checks += o.checks;
        self.skipped += o.skipped;
        self.io_calls += o.io_calls;
        self.sim_s += o.sim_s;
        self.clock_reads += o.clock_reads;
        self.switches += o.switches;
        self.steps += o.steps;
        self.foreign_paths += o.foreign_paths;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State {
    Acked,
    /// A save into it failed or was cut short by a crash.
    Torn,
    /// Acknowledged once, then damaged on disk.
    Damaged,
}

#[derive(Clone)]
struct Slot {
    fods: bool,
    state: State,
    /// what a full load of the complete document shows
    want: Kv,
    model: Model,
    order: u64,
    raw: Vec<(String, String)>,
    /// the damage is of a kind the format protects against
    protected: bool,
}

pub struct Client {
    id: usize,
    p: Profile,
    wb: WorkBook,
    pub model: Model,
    slots: BTreeMap<u8, Slot>,
    order: u64,
    step: usize,
    pub st: Stats,
    /// Observations after each step, for comparisons between runs.
    pub obs: Vec<u64>,
    raw: Vec<(String, String)>,
    /// Documents this very workbook was saved as: package, flat.
    docs: [Option<Kv>; 2],
}

thread_local! {
    pub static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs library code: a scheduled section, panics caught.
fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = catch_unwind(AssertUnwindSafe(|| sched::section(f)));
    sched::end_section();
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

fn pos(code: u64, size: u64) -> u64 {
    if code < 1_000_000 {
        (size as u128 * code as u128 / 1_000_000) as u64
    } else {
        size.saturating_sub(code - 1_000_000)
    }
}

fn resolve(faults: &[Fault], size: u64) -> Vec<Fault> {
    faults
        .iter()
        .map(|f| match f.clone() {
            Fault::WriteErr { at, errno, sticky } => Fault::WriteErr {
                at: pos(at, size),
                errno,
                sticky,
            },
            Fault::Crash { at } => Fault::Crash { at: pos(at, size) },
            Fault::ReadErr {
                at,
                skip,
                errno,
                sticky,
            } => Fault::ReadErr {
                at: pos(at, size.saturating_sub(1)),
                skip,
                errno,
                sticky,
            },
            o => o,
        })
        .collect()
}

pub fn load_buf(bytes: &[u8], fods: bool) -> Result<Result<WorkBook, OdsError>, String> {
    lib(|| if fods { read_fods_buf(bytes) } else { read_ods_buf(bytes) })
}

fn errs(e: &OdsError) -> String {
    let s = format!("{e}");
    s.chars().take(200).collect()
}

fn summary(d: &[String]) -> String {
    let mut s = String::new();
    for x in d.iter().take(40) {
        let x: String = x.chars().take(800).collect();
        s.push_str(&x);
        s.push_str(" ;; ");
    }
    if d.len() > 40 {
        s.push_str(&format!("… {} differences in all", d.len()));
    }
    s
}

type Res = Result<(), Violation>;

impl Client {
    pub fn new(id: usize, p: Profile) -> Self {
        Client {
            id,
            p,
            wb: WorkBook::new_empty(),
            model: Model::default(),
            slots: BTreeMap::new(),
            order: 0,
            step: 0,
            st: Stats::default(),
            obs: Vec::new(),
            raw: Vec::new(),
            docs: [None, None],
        }
    }

    fn bad<T>(&self, kind: &str, detail: String) -> Result<T, Violation> {
        Err(Violation {
            kind: kind.into(),
            client: self.id,
            step: self.step,
            detail,
        })
    }
    /// The run cannot be judged for this property (another one covers it).
    fn skip<T>(&mut self) -> Result<T, Violation> {
        Err(Violation {
            kind: "skip".into(),
            client: self.id,
            step: self.step,
            detail: String::new(),
        })
    }

    fn path(&self, slot: u8, fods: bool) -> String {
        format!("{}c{}/s{}.{}", SIM_PREFIX, self.id, slot, if fods { "fods" } else { "ods" })
    }
    fn file(&self, slot: u8, fods: bool) -> Vec<u8> {
        let p = self.path(slot, fods);
        with_world(|w| w.files.get(&p).map(|f| f.data.clone()).unwrap_or_default()).unwrap_or_default()
    }
    fn set_file(&self, slot: u8, fods: bool, data: Vec<u8>) {
        let p = self.path(slot, fods);
        with_world(|w| w.files.insert(p, File { data }));
    }

    fn observe(&mut self, wb: &WorkBook) -> Result<Model, Violation> {
        match catch_unwind(AssertUnwindSafe(|| observe(wb))) {
            Ok(m) => Ok(m),
            Err(_) => {
                let p = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                self.bad("panic-in-getter", p)
            }
        }
    }
    fn observe_own(&mut self) -> Result<Model, Violation> {
        let wb = std::mem::replace(&mut self.wb, WorkBook::new_empty());
        let r = self.observe(&wb);
        self.wb = wb;
        r
    }

    pub fn run(&mut self, steps: &[Step]) -> Res {
        for (i, s) in steps.iter().enumerate() {
            self.step = i;
            self.one(s)?;
            if self.p.each {
                self.st.checks += 1;
                let got = self.observe_own()?.flat();
                let d = self.diffs(&self.model.flat(), &got);
                if !d.is_empty() {
                    return self.bad("state-differs", format!("{s:?}: {}", summary(&d)));
                }
            }
            if self.p.obs_each {
                let h = {
                    let f = self.observe_own()?.flat();
                    fnv(format!("{f:?}").as_bytes())
                };
                self.obs.push(h);
            }
        }
        Ok(())
    }

    fn one(&mut self, s: &Step) -> Res {
        match s {
            Step::Edit(e) => {
                // Applicability is judged on a copy so that a skipped edit has no effect.
                let mut m = self.model.clone();
                if !e.model(&mut m) {
                    self.st.edits_skipped += 1;
                    return Ok(());
                }
                self.st.edits += 1;
                let wb = &mut self.wb;
                if let Err(p) = lib(|| crate::apply::apply(wb, e)) {
                    return self.bad("panic-in-edit", format!("{e:?}: {p}"));
                }
                self.model = m;
                self.docs = [None, None];
                Ok(())
            }
            Step::Save {
                slot,
                fods,
                api,
                arg,
                faults,
            } => self.save(*slot, *fods, *api, *arg, faults),
            Step::Load {
                slot,
                api,
                arg,
                faults,
                adopt,
            } => self.load(*slot, *api, *arg, faults, *adopt),
            Step::OptLoad { slot, opts, api } => self.opt_load(*slot, *opts, *api),
            Step::Crash { slot } => {
                self.st.crashes += 1;
                with_world(|w| w.fire("process-crash"));
                self.restart(*slot)
            }
            Step::Hurt { slot, what } => {
                self.hurt(*slot, what);
                Ok(())
            }
            Step::Foreign { slot, frags } => self.foreign(*slot, frags),
            Step::Rewrite { slot, seed, ways } => self.rewrite(*slot, *seed, *ways),
            Step::Broken { slot, tweaks, api } => self.broken(*slot, tweaks, *api),
        }
    }

    /// In-memory state is gone; continue from the newest acknowledged slot
    /// (preferring `slot`), or from nothing.
    fn restart(&mut self, slot: u8) -> Res {
        self.wb = WorkBook::new_empty();
        self.model = Model::default();
        self.raw.clear();
        self.docs = [None, None];
        with_world(|w| w.note("restart"));
        let pick = match self.slots.get(&slot) {
            Some(s) if s.state == State::Acked => Some(slot),
            _ => self
                .slots
                .iter()
                .filter(|(_, s)| s.state == State::Acked)
                .max_by_key(|(_, s)| s.order)
                .map(|(k, _)| *k),
        };
        if let Some(k) = pick {
            self.load(k, 0, 0, &[], true)?;
        }
        Ok(())
    }

    fn diffs(&self, want: &Kv, got: &Kv) -> Vec<String> {
        let keep = self.p.keep;
        diff(want, got, &|k| keep(k))
    }

    fn save(&mut self, slot: u8, fods: bool, api: u8, arg: u32, faults: &[Fault]) -> Res {
        if self.model.sheets.is_empty() {
            // refused by the library
            return Ok(());
        }
        self.st.saves += 1;
        let before = self.observe_own()?;

        // In-memory state has to be what the history says.
        if self.p.model {
            self.st.checks += 1;
            let d = self.diffs(&self.model.flat(), &before.flat());
            if !d.is_empty() {
                return self.bad("state-before-save", summary(&d));
            }
        }

        // Undisturbed twin: the same save into a buffer.
        let need_twin = !self.p.model || !faults.is_empty() || self.p.raw;
        let mut twin_want = None;
        let mut size = 0;
        if need_twin {
            let mut c = self.wb.clone();
            let r = lib(|| {
                if fods {
                    write_fods_buf(&mut c, Vec::new())
                } else if api == 3 || api == 4 {
                    write_ods_buf_uncompressed(&mut c, Vec::new())
                } else {
                    write_ods_buf(&mut c, Vec::new())
                }
            });
            match r {
                Ok(Ok(b)) => {
                    size = b.len() as u64;
                    if !self.p.model {
                        match load_buf(&b, fods) {
                            Ok(Ok(wb)) => twin_want = Some(self.observe(&wb)?.flat_doc()),
                            _ => return self.skip(),
                        }
                    }
                }
                Ok(Err(e)) if self.p.model => return self.bad("save-failed", errs(&e)),
                Err(e) if self.p.model => return self.bad("panic-in-save", e),
                _ => return self.skip(),
            }
        }
        let mut model = self.model.reloaded(&Reload { fods });
        model.stats = (
            self.wb.num_sheets() as u32,
            self.wb.iter_sheets().map(|s| s.cell_count() as u32).sum(),
        );
        let want = if self.p.model { model.flat_doc() } else { twin_want.unwrap() };

        let path = self.path(slot, fods);
        let rf = resolve(faults, size);
        with_world(|w| w.begin_op(&rf));
        let wb = &mut self.wb;
        let had = with_world(|w| w.files.get(&path).is_some()).unwrap_or(false);
        let pth = path.clone();
        let r: Result<Result<(), String>, String> = lib(|| save_via(wb, &pth, fods, api, arg));
        let op = with_world(|w| w.end_op()).unwrap();
        // Handles of a dead process are gone.
        with_world(|w| w.fds.retain(|_, f| f.path != path));
        let opened = with_world(|w| w.files.get(&path).is_some()).unwrap_or(false);
        self.order += 1;
        let mut rec = Slot {
            fods,
            state: State::Torn,
            want: want.clone(),
            model,
            order: self.order,
            raw: self.raw.clone(),
            protected: true,
        };
        if op.crash_fired {
            // The outcome of the call was never seen by anybody.
            self.slots.insert(slot, rec);
            if let Err(p) = &r {
                return self.bad("panic-in-save", p.clone());
            }
            self.st.crashes += 1;
            return self.restart(slot);
        }
        let open_failed = op.faults.iter().any(|f| matches!(f, Fault::OpenErr { .. }))
            && op.hard_fired
            && op.written == 0
            && op.calls == 0;
        match r {
            Err(p) => return self.bad("panic-in-save", p),
            Ok(Err(e)) => {
                self.st.saves_err += 1;
                with_world(|w| w.note("save-err"));
                if !op.hard_fired {
                    let benign_only = faults.iter().all(|f| f.benign());
                    // The encoder below the library may hand an interruption up
                    // instead of retrying; that is a reported failure.
                    let interrupted = faults.iter().any(|f| matches!(f, Fault::Eintr { .. }))
                        && e.contains("Interrupted");
                    if self.p.model && faults.is_empty() || self.p.benign && benign_only && !interrupted {
                        return self.bad("save-failed", format!("no error was injected: {e}"));
                    }
                }
                if open_failed {
                    // Nothing was touched.
                    let _ = (had, opened);
                } else {
                    self.slots.insert(slot, rec);
                }
            }
            Ok(Ok(())) => {
                self.st.saves_ok += 1;
                with_world(|w| w.note("save-ok"));
                if op.hard_fired && self.p.report {
                    return self.bad(
                        "error-not-reported",
                        format!(
                            "the save returned Ok although the sink returned an error ({:?})",
                            rf.iter().filter(|f| !f.benign()).collect::<Vec<_>>()
                        ),
                    );
                }
                rec.state = State::Acked;
                self.slots.insert(slot, rec);
                self.check_acked(slot, &want)?;
            }
        }
        // The workbook itself is unchanged by a save, whatever its outcome.
        let after = self.observe_own()?;
        if self.p.unchanged || self.p.model {
            self.st.checks += 1;
            let mut b = before.flat();
            let mut a = after.flat();
            if !b.contains_key("cfg.active_table") {
                b.remove("cfg.active_table");
                a.remove("cfg.active_table");
            }
            let d = self.diffs(&b, &a);
            if !d.is_empty() {
                return self.bad("save-changed-workbook", summary(&d));
            }
        }
        // A save settles which table is the active one.
        if let Some(v) = after.book.get("cfg.active_table") {
            if !self.model.book.contains_key("cfg.active_table")
                && self.model.sheets.first().map(|s| s.name()).as_ref() == Some(v)
            {
                self.model.book.insert("cfg.active_table".into(), v.clone());
            }
        }
        Ok(())
    }

    /// An acknowledged save holds the complete document.
    fn check_acked(&mut self, slot: u8, want: &Kv) -> Res {
        let fods = self.slots[&slot].fods;
        let bytes = self.file(slot, fods);
        self.st.checks += 1;
        if let Some(pk) = self.p.pkg {
            if let Err(e) = pk(&bytes, fods, &self.model) {
                return self.bad("invalid-package", e);
            }
        }
        if self.p.docs > 0 {
            let c = match crate::pkg::content(&bytes, fods) {
                Ok(c) => c,
                Err(e) => return self.bad("document-unreadable", e),
            };
            if self.p.docs == 2 {
                self.obs.push(fnv(format!("{c:?}").as_bytes()));
            }
            if let Some(old) = &self.docs[fods as usize] {
                self.st.checks += 1;
                let d = crate::pkg::differs(old, &c);
                if !d.is_empty() {
                    return self.bad("same-workbook-other-document", summary(&d));
                }
            }
            self.docs[fods as usize] = Some(c);
        }
        if self.p.peer {
            match crate::peer::read(&bytes, fods) {
                Err(e) => return self.bad("another-program-cannot-read", e),
                Ok(got) => {
                    let d = diff(want, &got, &crate::peer::keep);
                    if !d.is_empty() {
                        return self.bad("another-program-reads-differently", summary(&d));
                    }
                }
            }
            return Ok(());
        }
        match load_buf(&bytes, fods) {
            Err(p) => {
                if self.p.reload {
                    return self.bad("panic-in-load", p);
                }
            }
            Ok(Err(e)) => {
                if self.p.reload {
                    return self.bad(
                        "acknowledged-save-unreadable",
                        format!("{} ({} bytes)", errs(&e), bytes.len()),
                    );
                }
            }
            Ok(Ok(wb)) => {
                if self.p.reload {
                    let got = self.observe(&wb)?.flat_doc();
                    let d = self.diffs(want, &got);
                    if !d.is_empty() {
                        return self.bad("acknowledged-save-incomplete", summary(&d));
                    }
                }
                if self.p.raw {
                    let raw = self.raw.clone();
                    if let Err(e) = crate::foreign::check(&bytes, fods, &raw) {
                        return self.bad("foreign-content-lost", e);
                    }
                }
            }
        }
        Ok(())
    }

    fn load(&mut self, slot: u8, api: u8, arg: u32, faults: &[Fault], adopt: bool) -> Res {
        let Some(rec) = self.slots.get(&slot).cloned() else {
            // Loading what does not exist is an error, never an empty document.
            let path = self.path(slot, false);
            self.st.loads += 1;
            with_world(|w| w.begin_op(&[]));
            let r = lib(|| load_via(&path, false, 0, 0));
            with_world(|w| w.end_op());
            return match r {
                Err(p) => self.bad("panic-in-load", p),
                Ok(Ok(_)) => self.bad("loaded-missing-file", path),
                Ok(Err(_)) => Ok(()),
            };
        };
        self.st.loads += 1;
        let path = self.path(slot, rec.fods);
        let size = with_world(|w| w.files.get(&path).map(|f| f.data.len()).unwrap_or(0)).unwrap_or(0);
        let rf = resolve(faults, size as u64);
        with_world(|w| w.begin_op(&rf));
        let r = lib(|| load_via(&path, rec.fods, api, arg));
        let op = with_world(|w| w.end_op()).unwrap();
        with_world(|w| w.fds.retain(|_, f| f.path != path));
        if op.looped {
            return self.bad("load-does-not-end", format!("keeps reading at end of file ({path})"));
        }
        match r {
            Err(p) => self.bad("panic-in-load", p),
            Ok(Err(e)) => {
                self.st.loads_err += 1;
                with_world(|w| w.note("load-err"));
                if rec.state == State::Acked && !op.hard_fired {
                    let benign_only = faults.iter().all(|f| f.benign());
                    // The encoder below the library may hand an interruption up
                    // instead of retrying; that is a reported failure.
                    let interrupted = faults.iter().any(|f| matches!(f, Fault::Eintr { .. }))
                        && e.contains("Interrupted");
                    if faults.is_empty() && (self.p.model || self.p.benign) || self.p.benign && benign_only {
                        return self.bad("load-failed", format!("no error was injected: {e}"));
                    }
                }
                Ok(())
            }
            Ok(Ok(wb)) => {
                self.st.loads_ok += 1;
                with_world(|w| w.note("load-ok"));
                let got = self.observe(&wb)?.flat_doc();
                self.st.checks += 1;
                if rec.protected {
                    let d = self.diffs(&rec.want, &got);
                    if !d.is_empty() {
                        let what = match rec.state {
                            State::Acked if op.hard_fired => "read-error-swallowed",
                            State::Acked => "load-differs",
                            State::Torn => "torn-document-accepted",
                            State::Damaged => "damaged-document-accepted",
                        };
                        return self.bad(what, summary(&d));
                    }
                }
                if adopt && rec.state == State::Acked {
                    self.wb = wb;
                    self.docs = [None, None];
                    self.model = rec.model.clone();
                    self.raw = rec.raw.clone();
                    if rec.fods {
                        // a flat document has no manifest
                        self.raw.retain(|r| r.0 != "manifest");
                    }
                }
                Ok(())
            }
        }
    }

    fn opt_load(&mut self, slot: u8, opts: (bool, bool, bool), api: u8) -> Res {
        let Some(rec) = self.slots.get(&slot).cloned() else {
            return Ok(());
        };
        if rec.state != State::Acked {
            return Ok(());
        }
        self.st.loads += 1;
        let bytes = self.file(slot, rec.fods);
        let full = match load_buf(&bytes, rec.fods) {
            Ok(Ok(wb)) => wb,
            _ => return self.skip(),
        };
        let full = self.observe(&full)?;
        let mut o = OdsOptions::default();
        if opts.0 {
            o = o.content_only();
        }
        if opts.1 {
            o = o.use_repeat_for_cells();
        }
        if opts.2 {
            o = o.ignore_empty_cells();
        }
        let path = self.path(slot, rec.fods);
        let r = lib(|| {
            if api % 2 == 0 {
                if rec.fods {
                    o.read_fods(Cursor::new(&bytes))
                } else {
                    o.read_ods(Cursor::new(&bytes))
                }
            } else if rec.fods {
                o.read_fods(BufReader::with_capacity(64, SimStream::open_read(&path)?))
            } else {
                o.read_ods(SimStream::open_read(&path)?)
            }
        });
        self.st.checks += 1;
        match r {
            Err(p) => self.bad("panic-in-load", p),
            Ok(Err(e)) => self.bad("option-load-failed", errs(&e)),
            Ok(Ok(wb)) => {
                self.st.loads_ok += 1;
                let got = self.observe(&wb)?;
                let d = crate::options::compare(&full, &got, opts, rec.fods);
                if !d.is_empty() {
                    return self.bad("option-load-differs", format!("options {opts:?}: {}", summary(&d)));
                }
                Ok(())
            }
        }
    }

    fn hurt(&mut self, slot: u8, what: &Hurt) {
        let Some(rec) = self.slots.get(&slot).cloned() else {
            return;
        };
        let mut b = self.file(slot, rec.fods);
        let n = b.len() as u64;
        if n == 0 {
            return;
        }
        let mut protected = rec.protected;
        match what {
            Hurt::Truncate(p) => {
                let k = pos(*p, n).min(n - 1);
                b.truncate(k as usize);
            }
            Hurt::Flip(p, bit) => {
                if rec.fods {
                    return;
                }
                let Some(ranges) = crate::pkg::payload_ranges(&b) else {
                    return;
                };
                let tot: u64 = ranges.iter().map(|(_, l)| *l as u64).sum();
                if tot == 0 {
                    return;
                }
                let mut k = pos(*p, tot).min(tot - 1);
                for (o, l) in ranges {
                    if k < l as u64 {
                        b[o + k as usize] ^= 1 << (bit % 8);
                        break;
                    }
                    k -= l as u64;
                }
            }
            Hurt::FlipAny(p, bit) => {
                let k = pos(*p, n).min(n - 1) as usize;
                b[k] ^= 1 << (bit % 8);
                protected = false;
            }
            Hurt::LostSector(p) => {
                let k = (pos(*p, n).min(n - 1) / 512 * 512) as usize;
                let e = (k + 512).min(b.len());
                b[k..e].fill(0);
                protected = protected && !rec.fods;
            }
            Hurt::SwapSectors(p, q) => {
                let s = n / 512;
                if s < 2 {
                    return;
                }
                let (x, y) = ((pos(*p, s).min(s - 1) * 512) as usize, (pos(*q, s).min(s - 1) * 512) as usize);
                if x == y {
                    return;
                }
                for i in 0..512 {
                    b.swap(x + i, y + i);
                }
                protected = protected && !rec.fods;
            }
        }
        with_world(|w| {
            w.fire(match what {
                Hurt::Truncate(_) => "truncated-file",
                Hurt::Flip(..) => "bit-flip-payload",
                Hurt::FlipAny(..) => "bit-flip-anywhere",
                Hurt::LostSector(_) => "lost-sector",
                Hurt::SwapSectors(..) => "misdirected-write",
            });
            w.note("hurt");
        });
        self.set_file(slot, rec.fods, b);
        let s = self.slots.get_mut(&slot).unwrap();
        s.protected = protected;
        if s.state == State::Acked {
            s.state = State::Damaged;
        }
    }

    fn rewrite(&mut self, slot: u8, seed: u64, ways: u32) -> Res {
        let Some(rec) = self.slots.get(&slot).cloned() else {
            return Ok(());
        };
        if rec.state != State::Acked {
            return Ok(());
        }
        let bytes = self.file(slot, rec.fods);
        match crate::rewrite::same(&bytes, rec.fods, seed, ways) {
            Err(_) => self.skip(),
            Ok(b) => {
                with_world(|w| {
                    w.fire("foreign-rewrite");
                    for (i, n) in crate::rewrite::WAYS.iter().enumerate() {
                        if ways & (1 << i) != 0 {
                            w.fire(n);
                        }
                    }
                });
                self.set_file(slot, rec.fods, b);
                Ok(())
            }
        }
    }

    /// Whatever is in it, a document is loaded or refused; what was loaded can be
    /// looked at and saved.
    fn broken(&mut self, slot: u8, tweaks: &[u64], api: u8) -> Res {
        let Some(rec) = self.slots.get(&slot).cloned() else {
            return Ok(());
        };
        if rec.state != State::Acked {
            return Ok(());
        }
        let bytes = self.file(slot, rec.fods);
        let Ok(b) = crate::rewrite::broken(&bytes, rec.fods, tweaks) else {
            return self.skip();
        };
        with_world(|w| w.fire("malformed-document"));
        self.st.loads += 1;
        let path = self.path(99, rec.fods);
        self.set_file(99, rec.fods, b);
        with_world(|w| w.begin_op(&[]));
        let r = lib(|| load_via(&path, rec.fods, api, 0));
        let op = with_world(|w| w.end_op()).unwrap();
        with_world(|w| w.fds.retain(|_, f| f.path != path));
        self.st.checks += 1;
        if op.looped {
            return self.bad("load-does-not-end", format!("keeps reading at end of file ({path})"));
        }
        let mut wb = match r {
            Err(p) => return self.bad("panic-in-load", p),
            Ok(Err(_)) => {
                self.st.loads_err += 1;
                with_world(|w| w.note("load-err"));
                return Ok(());
            }
            Ok(Ok(wb)) => wb,
        };
        self.st.loads_ok += 1;
        with_world(|w| w.note("load-ok"));
        // Elements in the wrong place, but names and values an XML document can have.
        let tree = tweaks.iter().all(|t| crate::rewrite::is_tree(*t));
        let first = self.observe(&wb)?.flat_doc();
        for fods in [false, true] {
            let r = lib(|| {
                if fods {
                    write_fods_buf(&mut wb, Vec::new())
                } else {
                    write_ods_buf(&mut wb, Vec::new())
                }
            });
            self.st.checks += 1;
            match r {
                Err(p) => return self.bad("panic-in-save", p),
                Ok(Err(_)) => {}
                Ok(Ok(b)) => {
                    match load_buf(&b, fods) {
                        Err(p) => return self.bad("panic-in-load", p),
                        Ok(Err(e)) => {
                            if tree {
                                return self.bad("saved-but-unreadable", errs(&e));
                            }
                        }
                        Ok(Ok(wb)) => {
                            if tree && fods == rec.fods {
                                self.st.checks += 1;
                                let got = self.observe(&wb)?.flat_doc();
                                let mut d = self.diffs(&first, &got);
                                d.retain(|l| !settled(l));
                                if !d.is_empty() {
                                    return self.bad("saved-differently", summary(&d));
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn foreign(&mut self, slot: u8, frags: &[crate::foreign::Frag]) -> Res {
        let Some(rec) = self.slots.get(&slot).cloned() else {
            return Ok(());
        };
        if rec.state != State::Acked {
            return Ok(());
        }
        let bytes = self.file(slot, rec.fods);
        match crate::foreign::inject(&bytes, rec.fods, frags) {
            Err(_) => self.skip(),
            Ok(inj) => {
                with_world(|w| w.fire("foreign-edit"));
                self.set_file(slot, rec.fods, inj.bytes);
                let s = self.slots.get_mut(&slot).unwrap();
                s.raw.extend(inj.raw);
                for (p, t, d) in inj.files {
                    let v = format!("{t:?} {d:?}");
                    s.model.book.insert(format!("file.{p}"), v.clone());
                    s.want.insert(format!("file.{p}"), v);
                }
                Ok(())
            }
        }
    }
}

/// What a save fills in by itself.
fn settled(d: &str) -> bool {
    d.starts_with("meta.cells:")
        || d.starts_with("meta.tables:")
        || d.starts_with("cfg.active_table: unexpected")
        || d.contains(".cell.") && d.contains(".style: unexpected")
        // Groups and headers of rows or columns that the document doesn't have.
        || [".cgrp", ".rgrp", ".hcols", ".hrows"].iter().any(|k| d.contains(k))
        // Embedded text that says no position.
        || d.contains("fmt.") && d.contains("pos=None")
}

fn io_err(e: std::io::Error) -> String {
    e.to_string()
}

fn save_via(wb: &mut WorkBook, path: &str, fods: bool, api: u8, arg: u32) -> Result<(), String> {
    let e = |e: OdsError| errs(&e);
    if fods {
        match api {
            0 | 3 | 4 => write_fods(wb, path).map_err(e),
            1 | 5 => write_fods_to(wb, SimStream::open_write(path).map_err(io_err)?).map_err(e),
            2 => {
                let b = write_fods_buf(wb, Vec::new()).map_err(e)?;
                with_world(|w| w.files.insert(path.into(), File { data: b }));
                Ok(())
            }
            _ => write_fods_to(
                wb,
                BufWriter::with_capacity(1 + arg as usize % 9000, SimStream::open_write(path).map_err(io_err)?),
            )
            .map_err(e),
        }
    } else {
        match api {
            0 => write_ods(wb, path).map_err(e),
            1 => write_ods_to(wb, SimStream::open_write(path).map_err(io_err)?).map_err(e),
            2 | 3 => {
                let b = if api == 2 {
                    write_ods_buf(wb, Vec::new())
                } else {
                    write_ods_buf_uncompressed(wb, Vec::new())
                }
                .map_err(e)?;
                with_world(|w| w.files.insert(path.into(), File { data: b }));
                Ok(())
            }
            4 => OdsWriteOptions::default()
                .compression_method(CompressionMethod::Stored)
                .write_ods(wb, SimStream::open_write(path).map_err(io_err)?)
                .map_err(e),
            5 => OdsWriteOptions::default()
                .compression_method(CompressionMethod::Deflated)
                .compression_level(Some(1 + arg as i64 % 9))
                .write_ods(
                    wb,
                    BufWriter::with_capacity(1 + arg as usize % 9000, SimStream::open_write(path).map_err(io_err)?),
                )
                .map_err(e),
            _ => write_ods_to(
                wb,
                BufWriter::with_capacity(1 + arg as usize % 9000, SimStream::open_write(path).map_err(io_err)?),
            )
            .map_err(e),
        }
    }
}

fn load_via(path: &str, fods: bool, api: u8, arg: u32) -> Result<WorkBook, String> {
    let e = |e: OdsError| errs(&e);
    let raw = |p: &str| {
        with_world(|w| w.files.get(p).map(|f| f.data.clone()))
            .flatten()
            .ok_or_else(|| "no such file".to_string())
    };
    if fods {
        match api {
            0 => read_fods(path).map_err(e),
            1 => read_fods_from(SimStream::open_read(path).map_err(io_err)?).map_err(e),
            2 => read_fods_buf(&raw(path)?).map_err(e),
            _ => OdsOptions::default()
                .read_fods(BufReader::with_capacity(
                    1 + arg as usize % 300,
                    SimStream::open_read(path).map_err(io_err)?,
                ))
                .map_err(e),
        }
    } else {
        match api {
            0 => read_ods(path).map_err(e),
            1 => read_ods_from(SimStream::open_read(path).map_err(io_err)?).map_err(e),
            2 => read_ods_buf(&raw(path)?).map_err(e),
            _ => OdsOptions::default()
                .read_ods(BufReader::with_capacity(
                    1 + arg as usize % 300,
                    SimStream::open_read(path).map_err(io_err)?,
                ))
                .map_err(e),
        }
    }
}

// ---- whole runs ----------------------------------------------------------------

pub struct Outcome {
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub log: Vec<String>,
}

struct ClientOut {
    res: Res,
    st: Stats,
    obs: Vec<u64>,
}

struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

/// One world, the given clients, the given schedule.
fn world_run(
    p: Profile,
    hash_seed: u64,
    clock: &ClockPlan,
    clients: &[(usize, &[Step])],
    schedule: Schedule,
    verbose: bool,
) -> (Vec<ClientOut>, Stats, u64, Vec<String>) {
    let mut world = World::new(hash_seed, clock.clone());
    if verbose {
        world.log_lines = Some(Vec::new());
    }
    let start = world.now_ns;
    let mut sc = Sched::new(clients.len() as u32, schedule);
    let wp: *mut World = &mut world;
    let sp: *mut Sched = &mut sc;
    let mut outs: Vec<ClientOut> = Vec::new();
    std::thread::scope(|scope| {
        let hs: Vec<_> = clients
            .iter()
            .enumerate()
            .map(|(i, (id, steps))| {
                let (wp, sp) = (Ptr(wp), Ptr(sp));
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let (wp, sp) = (wp.get(), sp.get());
                        CLIENT.with(|c| c.set(*id as i64));
                        sched::enter(sp, i as u32);
                        WORLD.with(|w| w.set(wp));
                        let mut c = Client::new(*id, p);
                        let res = c.run(steps);
                        let out = ClientOut {
                            res,
                            st: c.st.clone(),
                            obs: std::mem::take(&mut c.obs),
                        };
                        drop(c);
                        WORLD.with(|w| w.set(std::ptr::null_mut()));
                        sched::leave();
                        out
                    })
                    .expect("spawn")
            })
            .collect();
        unsafe { (*sp).start(0) };
        for h in hs {
            outs.push(h.join().expect("client thread"));
        }
    });
    let mut st = Stats::default();
    for o in &outs {
        st.add(&o.st);
    }
    st.fired = world.fired.clone();
    st.io_calls = world.io_calls;
    st.sim_s = (world.now_ns - start).abs() as f64 / 1e9;
    st.clock_reads = world.clock_reads;
    st.switches = sc.switches;
    st.steps = sc.steps;
    st.foreign_paths = world.foreign_paths.len() as u64;
    let trace = mix(world.log, sc.trace);
    (outs, st, trace, world.log_lines.take().unwrap_or_default())
}

pub fn run(s: &Scenario, verbose: bool) -> Outcome {
    let p = crate::gen_steps::profile(&s.property);
    let all: Vec<(usize, &[Step])> = s.clients.iter().enumerate().map(|(i, c)| (i, c.as_slice())).collect();
    let mut stats = Stats::default();
    let mut violation: Option<Violation> = None;
    let mut log;
    let mut digest = 0u64;

    let take = |outs: &[ClientOut], v: &mut Option<Violation>, st: &mut Stats| {
        for o in outs {
            if let Err(e) = &o.res {
                if e.kind == "skip" {
                    st.skipped += 1;
                } else if v.is_none() {
                    *v = Some(e.clone());
                }
            }
        }
    };
    let hash_outs = |outs: &[ClientOut], d: &mut u64| {
        for o in outs {
            for x in &o.obs {
                *d = mix(*d, *x);
            }
            *d = mix(*d, fnv(format!("{:?}", o.res).as_bytes()));
        }
    };

    if s.clients.len() > 1 {
        // Every client alone first.
        let mut solo = Vec::new();
        let mut total = 0;
        for (i, c) in &all {
            let (o, st, _, _) = world_run(p, s.hash_seed, &s.clock, &[(*i, c)], Schedule::default(), false);
            total += st.steps;
            solo.extend(o);
        }
        if let Some(i) = solo.iter().position(|o| o.res.is_err()) {
            // Fails on its own already.
            let mut st = Stats::default();
            if let Err(e) = &solo[i].res {
                if e.kind == "skip" {
                    st.skipped += 1;
                } else {
                    violation = Some(e.clone());
                }
            }
            return Outcome {
                violation,
                stats: st,
                log: vec![],
            };
        }
        let mut pre: Vec<(u64, u32)> = s
            .preempt
            .iter()
            .map(|(at, c)| ((total as u128 * *at as u128 / 1_000_000) as u64, *c))
            .collect();
        pre.sort();
        let (outs, st, trace, l) =
            world_run(p, s.hash_seed, &s.clock, &all, Schedule { preempt: pre }, verbose);
        log = l;
        stats.add(&st);
        stats.trace = trace;
        take(&outs, &mut violation, &mut stats);
        hash_outs(&outs, &mut digest);
        if violation.is_none() {
            for (i, (a, b)) in solo.iter().zip(&outs).enumerate() {
                stats.checks += 1;
                if a.obs != b.obs || a.st.saves_ok != b.st.saves_ok || a.st.loads_ok != b.st.loads_ok {
                    let step = a.obs.iter().zip(&b.obs).position(|(x, y)| x != y).unwrap_or(0);
                    violation = Some(Violation {
                        kind: "concurrent-run-differs".into(),
                        client: i,
                        step,
                        detail: format!("client {i} behaves differently next to other clients than alone"),
                    });
                    break;
                }
            }
        }
    } else {
        let (outs, st, trace, l) =
            world_run(p, s.hash_seed, &s.clock, &all, Schedule::default(), verbose);
        log = l;
        stats.add(&st);
        stats.trace = trace;
        take(&outs, &mut violation, &mut stats);
        hash_outs(&outs, &mut digest);
        if let (Some((h, c)), true) = (&s.alt, violation.is_none() && stats.skipped == 0) {
            let (outs2, st2, trace2, l2) = world_run(p, *h, c, &all, Schedule::default(), verbose);
            log.extend(l2);
            stats.add(&st2);
            stats.trace = mix(stats.trace, trace2);
            take(&outs2, &mut violation, &mut stats);
            hash_outs(&outs2, &mut digest);
            stats.checks += 1;
            if violation.is_none() && outs[0].obs != outs2[0].obs {
                let step = outs[0]
                    .obs
                    .iter()
                    .zip(&outs2[0].obs)
                    .position(|(x, y)| x != y)
                    .unwrap_or(0);
                violation = Some(Violation {
                    kind: "worlds-differ".into(),
                    client: 0,
                    step,
                    detail: "the same history gives different documents under another hash seed and clock".into(),
                });
            }
        }
    }
    stats.digest = mix(digest, stats.trace);
    Outcome {
        violation,
        stats,
        log,
    }
}
