//! C05: remote changes are announced exactly as they happened; peers converge.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use automerge::sync::{Message, State};
use ethersync::document::Document;
use ethersync::path::RelativePath;
use ethersync::types::PatchEffect;
use std::collections::{BTreeMap, VecDeque};
use text::Text;

struct Peer {
    d: Document,
    state: State,
    /// what following the announcements leads to
    model: BTreeMap<String, Text>,
    inbox: VecDeque<Message>,
    idle: bool,
}

fn rel(s: &str) -> RelativePath {
    RelativePath::new(s)
}

impl Peer {
    fn new(seed: u64) -> Peer {
        vp::seed(seed);
        Peer { d: Document::default(), state: State::new(), model: BTreeMap::new(), inbox: VecDeque::new(), idle: false }
    }
    /// What is shared equals what was announced.
    fn check(&self) {
        let mut have: Vec<String> = self.d.files().iter().map(|f| f.to_string()).collect();
        have.sort();
        let want: Vec<String> = self.model.keys().map(|k| format!("'{k}'")).collect();
        vp::check(have == want, "created and removed files are announced");
        for (f, t) in &self.model {
            match self.d.current_file_content(&rel(f)) {
                Ok(s) => vp::check_same(&s, &text::string(t), "the announced changes lead to the shared text"),
                Err(_) => vp::fail("a shared file has a text"),
            }
        }
    }
    fn receive(&mut self, m: Message) {
        let patches = self.d.receive_sync_message_log_patches(m, &mut self.state);
        for e in PatchEffect::from_crdt_patches(patches) {
            match e {
                PatchEffect::FileChange(c) => {
                    let f = c.file_path.to_string().trim_matches('\'').to_string();
                    if c.delta.0.is_empty() {
                        // a file appears, or is replaced by the winner of a conflict
                        self.model.insert(f, vec![]);
                        continue;
                    }
                    let t = match self.model.get(&f) {
                        Some(t) => t,
                        None => vp::fail("a file is announced before its changes"),
                    };
                    match text::apply(t, &c.delta) {
                        Some(t) => {
                            self.model.insert(f, t);
                        }
                        None => vp::fail("an announced change fits the text"),
                    }
                }
                PatchEffect::FileRemoval(f) => {
                    let f = f.to_string().trim_matches('\'').to_string();
                    vp::check(self.model.remove(&f).is_some(), "a removed file was there");
                }
                _ => {}
            }
        }
        self.check();
        self.idle = false;
    }
    fn create(&mut self, f: &str, t: Text) {
        self.d.initialize_text(&text::string(&t), &rel(f));
        self.model.insert(f.into(), t);
        self.idle = false;
    }
    fn remove(&mut self, f: &str) {
        self.d.remove_text(&rel(f));
        self.model.remove(f);
        self.idle = false;
    }
    /// One local change; `kinds` limits what can happen.
    fn act(&mut self, kinds: usize, parts: usize) {
        match vp::choice(kinds) {
            0 => {
                let t = match self.model.get("f") {
                    Some(t) => t.clone(),
                    None => vp::end(),
                };
                let delta = text::change(&t, parts);
                vp::note("edits f");
                self.d.apply_delta_to_doc(&delta, &rel("f"));
                self.model.insert("f".into(), text::apply(&t, &delta).unwrap());
                self.idle = false;
            }
            1 => {
                if self.model.contains_key("g") {
                    vp::end();
                }
                vp::note("creates g");
                let t = vec![text::letter()];
                self.create("g", t);
            }
            2 => {
                if !self.model.contains_key("f") {
                    vp::end();
                }
                vp::note("removes f");
                self.remove("f");
            }
            _ => {
                if !self.model.contains_key("f") {
                    vp::end();
                }
                vp::note("replaces f");
                self.remove("f");
                let t = vec![text::letter()];
                self.create("f", t);
            }
        }
        self.check();
    }
}

/// One step of the exchange; false if there is nothing to do.
fn step(p: &mut [Peer; 2], what: usize) -> bool {
    let (i, recv) = (what & 1, what & 2 != 0);
    if recv {
        match p[i].inbox.pop_front() {
            Some(m) => {
                p[i].receive(m);
                true
            }
            None => false,
        }
    } else {
        if p[i].idle {
            return false;
        }
        match p[i].d.generate_sync_message(&mut p[i].state) {
            Some(m) => {
                p[1 - i].inbox.push_back(m);
                true
            }
            None => {
                p[i].idle = true;
                false
            }
        }
    }
}
fn drain(p: &mut [Peer; 2]) {
    for _ in 0..60 {
        let mut any = false;
        for w in [0, 1, 2, 3] {
            any |= step(p, w);
        }
        if !any {
            return;
        }
    }
    vp::fail("the exchange comes to an end");
}
fn same(p: &[Peer; 2]) {
    vp::check(p[0].model.len() == p[1].model.len(), "both peers share the same files");
    for (f, t) in &p[0].model {
        match p[1].model.get(f) {
            Some(u) => vp::check_same(&text::string(t), &text::string(u), "both peers share the same texts"),
            None => vp::fail("both peers share the same files"),
        }
    }
}

/// Diverge by `na` and `nb` changes, then exchange; `free` steps of the
/// exchange happen in any order, `late` changes in the middle of it.
fn run(na: usize, nb: usize, late: usize, kinds: usize, parts: usize, free: usize) {
    let order = vp::choice(2) as u64;
    let mut p = [Peer::new(1 + order), Peer::new(2 - order)];
    let t = vec!['\u{e9}', 'b'];
    p[0].create("f", t);
    drain(&mut p);
    same(&p);
    for _ in 0..na {
        vp::note("peer 0");
        p[0].act(kinds, parts);
    }
    for _ in 0..nb {
        vp::note("peer 1");
        p[1].act(kinds, parts);
    }
    let before = [p[0].model.clone(), p[1].model.clone()];
    let mut late = late;
    for _ in 0..free {
        let n = 4 + (late > 0) as usize * 2;
        let w = vp::choice(n);
        if w >= 4 {
            late -= 1;
            vp::note("late change");
            p[w - 4].act(kinds, parts);
        } else if !step(&mut p, w) {
            vp::end();
        }
    }
    drain(&mut p);
    same(&p);
    if nb == 0 && late == 0 && free == 0 {
        vp::check(p[1].model == before[0], "a change of one peer arrives as it is");
    }
    vp::cover(1);
}

/// Both create the same file independently.
fn conflict() {
    let order = vp::choice(2) as u64;
    let mut p = [Peer::new(1 + order), Peer::new(2 - order)];
    for i in 0..2 {
        let n = vp::choice(3);
        let t = (0..n).map(|_| text::letter()).collect();
        p[i].create("f", t);
        if vp::flag() {
            p[i].act(1, 1);
        }
    }
    let before = [p[0].model["f"].clone(), p[1].model["f"].clone()];
    if vp::flag() {
        step(&mut p, 0);
        step(&mut p, 3);
    }
    drain(&mut p);
    same(&p);
    let t = &p[0].model["f"];
    vp::check(t == &before[0] || t == &before[1], "one of the two versions wins");
    vp::cover(1);
}

entries! {
    c05_one => run(1, 0, 0, 4, 3, 0);
    c05_two => run(2, 0, 0, 4, 2, 0);
    c05_diverged => run(1, 1, 0, 4, 2, 1);
    c05_conflict => conflict();
    c05_late => run(1, 0, 1, 4, 1, 4);
    c05_deep => run(2, 1, 0, 4, 2, 2);
    c05_deeper => run(2, 2, 1, 4, 1, 3);
}
