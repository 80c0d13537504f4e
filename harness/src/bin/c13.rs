//! C13: cursor positions reach everyone else unchanged and disappear on
//! disconnect.

#[macro_use]
#[path = "../common/entry.rs"]
mod entry;
#[path = "../common/daemon.rs"]
mod daemon;
#[path = "../common/text.rs"]
mod text;
#[path = "../common/vp.rs"]
mod vp;

use daemon::*;
use serde_json::{json, Value};

const FILES: [&str; 3] = ["f", "d/é g", "none"];

struct One {
    /// 0 or 1: the daemon it is connected to
    at: usize,
    e: Option<Editor>,
    /// its latest cursor: file and ranges
    cursor: Option<(String, Vec<[usize; 4]>)>,
    /// everything it announced that nobody looked at yet
    news: Vec<(String, Vec<[usize; 4]>)>,
    id: Option<Value>,
}

struct Run {
    w: Vec<World>,
    link: Link,
    one: Vec<One>,
}

fn position(p: &Value) -> [usize; 2] {
    [p["line"].as_u64().unwrap() as usize, p["character"].as_u64().unwrap() as usize]
}

fn same(v: &Value, want: &[[usize; 4]]) -> bool {
    let Some(a) = v.as_array() else { return false };
    if a.len() != want.len() {
        return false;
    }
    let mut ok = true;
    for (r, w) in a.iter().zip(want) {
        let (s, e) = (position(&r["start"]), position(&r["end"]));
        ok &= (s[0] == w[0]) & (s[1] == w[1]) & (e[0] == w[2]) & (e[1] == w[3]);
    }
    ok
}

impl Run {
    fn new(daemons: usize) -> Run {
        vp::seed(1);
        let base = prepare();
        std::fs::write(format!("{base}/f"), "x\ny").unwrap();
        let mut w = vec![World::start(&base, false, true, true)];
        let mut link = Link::new();
        if daemons == 2 {
            w.push(World::start(&prepare_at("2"), false, false, true));
            w[0].sync_with(&w[1], &mut link);
        }
        Run { w, link, one: vec![] }
    }
    fn connect(&mut self, at: usize) {
        let e = Editor::connect(&self.w[at]);
        self.one.push(One { at, e: Some(e), cursor: None, news: vec![], id: None });
    }
    fn sync(&mut self) {
        if self.w.len() == 2 {
            self.w[0].sync_with(&self.w[1], &mut self.link);
        }
    }
    fn mv(&mut self, i: usize, n: usize, digits: bool) {
        let f = FILES[vp::choice(FILES.len())];
        self.mv_in(i, f, n, digits);
    }
    fn mv_in(&mut self, i: usize, f: &str, n: usize, digits: bool) {
        let o = &mut self.one[i];
        let Some(e) = &mut o.e else { vp::end() };
        let mut ranges = vec![];
        let mut list = String::from("[");
        for k in 0..n {
            let mut v = [0; 4];
            let mut s = vec![];
            for x in &mut v {
                if digits {
                    let b = vp::range(b'1', b'9');
                    s.push(String::from_utf8(vec![b]).unwrap());
                    *x = (b - b'0') as usize;
                } else {
                    *x = [0, 7, 4_000_000_000, usize::MAX][vp::choice(4)];
                    s.push(x.to_string());
                }
            }
            if k > 0 {
                list += ",";
            }
            list += &format!("{{\"start\":{{\"line\":{},\"character\":{}}},\"end\":{{\"line\":{},\"character\":{}}}}}", s[0], s[1], s[2], s[3]);
            ranges.push(v);
        }
        list += "]";
        let uri = self.w[o.at].uri(f);
        e.write(&format!("{{\"jsonrpc\":\"2.0\",\"id\":9,\"method\":\"cursor\",\"params\":{{\"uri\":\"{uri}\",\"ranges\":{list}}}}}\n"));
        self.w[o.at].pause();
        let r = e.responses();
        vp::check(r.len() == 1 && r[0].get("result").is_some(), "a cursor update is accepted");
        o.cursor = Some((f.into(), ranges.clone()));
        o.news.push((f.into(), ranges));
    }
    fn leave(&mut self, i: usize) {
        let o = &mut self.one[i];
        if o.e.is_none() {
            vp::end();
        }
        o.e = None;
        o.news.push(("".into(), vec![]));
        if o.cursor.is_some() {
            o.cursor = Some(("".into(), vec![]));
        }
        self.w[o.at].pause();
    }
    /// Deliver everything and compare what everybody saw.
    fn look(&mut self) {
        self.sync();
        for w in &self.w {
            w.pause();
        }
        for j in 0..self.one.len() {
            let at = self.one[j].at;
            let Some(e) = &mut self.one[j].e else { continue };
            e.digest(&self.w[at]);
            let got = std::mem::take(&mut e.cursors);
            let mut used = vec![false; got.len()];
            for i in 0..self.one.len() {
                if i == j || self.one[i].news.is_empty() {
                    continue;
                }
                let local = self.one[i].at == at;
                if self.one[i].id.is_none() {
                    let known: Vec<Value> = self.one.iter().filter_map(|o| o.id.clone()).collect();
                    let g = got.iter().find(|g| !known.contains(&g["userid"]));
                    match g {
                        Some(g) => self.one[i].id = Some(g["userid"].clone()),
                        None => vp::fail("a cursor update reaches everyone else, with an id of its own"),
                    }
                }
                let id = self.one[i].id.clone().unwrap();
                let mine: Vec<usize> = (0..got.len()).filter(|k| got[*k]["userid"] == id).collect();
                let news = &self.one[i].news;
                if local {
                    vp::check(mine.len() == news.len(), "every cursor update reaches the other editors of the daemon once");
                } else {
                    vp::check(!mine.is_empty(), "a cursor update reaches the editors of a peer");
                }
                for (n, k) in mine.iter().enumerate() {
                    used[*k] = true;
                    let g = &got[*k];
                    let want = if local { &news[n] } else { &news[news.len() - 1] };
                    if local || n + 1 == mine.len() {
                        vp::check(same(&g["ranges"], &want.1), "a cursor update arrives with the same ranges");
                        if !want.0.is_empty() {
                            let uri = self.w[at].uri(&want.0);
                            vp::check(g["uri"] == json!(uri), "a cursor update arrives with the same file");
                        }
                    }
                }
            }
            vp::check(used.iter().all(|u| *u), "there are no cursor updates of one's own, or of nobody");
        }
        for o in &mut self.one {
            o.news.clear();
        }
    }
}

fn history(daemons: usize, editors: usize, n: usize, ranges: usize, digits: bool) {
    let mut r = Run::new(daemons);
    for i in 0..editors {
        r.connect(i % daemons);
    }
    for _ in 0..n {
        let i = vp::choice(r.one.len() + 1);
        if i == r.one.len() {
            // it need not see what happened before
            r.look();
            let at = vp::choice(daemons);
            r.connect(at);
            continue;
        }
        let new = r.one[i].id.is_none();
        if vp::flag() {
            r.leave(i);
        } else {
            r.mv(i, vp::choice(ranges + 1), digits);
        }
        // an id is learnt from the first message
        if new || vp::flag() {
            r.look();
        }
    }
    r.look();
    vp::cover(1);
}

/// Everybody has been seen before, so several updates can travel together.
fn together(at: &[usize], n: usize) {
    let mut r = Run::new(2);
    for a in at {
        r.connect(*a);
    }
    for i in 0..at.len() {
        r.mv_in(i, FILES[0], 0, true);
        r.look();
    }
    for _ in 0..n {
        let i = vp::choice(r.one.len());
        if vp::flag() {
            r.leave(i);
        } else {
            r.mv_in(i, FILES[i % 2], 1, true);
        }
        if vp::flag() {
            r.look();
        }
    }
    r.look();
    vp::cover(1);
}

entries! {
    c13_together => together(&[1, 1, 0], 2);
    c13_together3 => together(&[1, 0, 1, 0], 3);

    c13_local => history(1, 3, 2, 1, true);
    c13_ranges => history(1, 2, 1, 3, true);
    c13_numbers => history(1, 2, 1, 1, false);
    c13_peer => history(2, 2, 2, 1, true);
    c13_three => history(2, 3, 1, 1, true);
    c13_more => history(2, 3, 2, 1, true);
    c13_deep => history(2, 3, 3, 1, true);
    c13_local_deep => history(1, 3, 3, 2, true);
}
