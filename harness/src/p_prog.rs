//! The program itself: run on generated decks, compared with the library.
use crate::{desc, guarded, Ctx};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

/// every file below d, with its text
fn files(d: &Path, out: &mut BTreeMap<String, String>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() { files(&p, out) } else { out.insert(p.to_string_lossy().into_owned(), std::fs::read_to_string(&p).unwrap_or_default()); }
        }
    }
}
fn waves() -> BTreeMap<String, String> { let mut m = BTreeMap::new(); files(Path::new("waves"), &mut m); m }

pub fn c18(c: &mut Ctx) -> Result<(), String> {
    let exe = match std::env::var("TS_PROGRAM") { Ok(e) => e, Err(_) => return Ok(()) };
    let r = &mut c.r;
    let mut ls: Vec<String> = vec![format!("V1 n0 0 {}", *r.pick(&["1", "5m", "SIN(0 1 1k)", "PWL( 0,0, 1m,1, 2m,0 )"]))];
    let n = 1 + r.below(5);
    let sub = r.chance(1, 2);
    for i in 0..n {
        if sub && r.chance(1, 2) { ls.push(format!("X{} n{} n{} sec r={}", i, i, i + 1, *r.pick(&["1k", "220", "4.7k"]))); }
        else {
            ls.push(format!("R{} n{} n{} {}", i, i, i + 1, *r.pick(&["1k", "33", "10k"])));
            if r.chance(1, 2) { ls.push(format!("C{} n{} 0 {}", i, i + 1, *r.pick(&["1u", "10n"]))); }
        }
    }
    ls.push(format!("Rend n{} 0 1k", n));
    if r.chance(1, 3) { ls.push(format!("D1 n{} 0", n)); }
    if sub { for l in [".subckt sec a b r=1k", "Rs a b {r}", "Cs b 0 1n", ".ends"] { ls.push(l.into()); } }
    let mut ctl = vec![".control".to_string()];
    for _ in 0..r.below(3) {
        ctl.push(r.pick(&["tran 10u 200u", "tran 20u 1m 100u", "tran 5u 50u", "op", "option RELTOL = 1m", "option RMAX = 2"]).to_string());
    }
    ctl.push(".endc".into());
    let at = r.below(ls.len());
    if sub { ls.extend(ctl); } else { for (i, x) in ctl.into_iter().enumerate() { ls.insert(at + i, x); } }
    let bad = if r.chance(2, 5) {
        let b = *r.pick(&["Q1 a b c", "Lx a b 1u", ".frob", "R9", "R9 a b", "R9 a b ohms", "1x", "V9 a b volts", "D9 a", ".subckt s a p=", "C9 a b F", "G9 a b c", "I9 a b", ".ends"]);
        let at = if sub && b != ".ends" { r.below(2) } else if b == ".ends" { 0 } else { ls.len() };
        ls.insert(at, b.into());
        Some(b)
    } else { None };
    let name = format!("{}deck{}.spi", *r.pick(&["", "", "sub/", "sub/dir/"]), c.case % 7);
    let text = format!("title\n{}\n", ls.join("\n"));
    std::fs::create_dir_all("sub/dir").unwrap();
    std::fs::write(&name, &text).unwrap();
    desc(format!("{}:\n{}", name, text));
    // what it should do, from the library
    let _ = std::fs::remove_dir_all("waves");
    let want = if bad.is_some() { Some((false, BTreeMap::new())) } else {
        guarded(|| {
            let mut rd = Reader::new();
            let e = rd.read(Path::new(&name));
            if e { return None; }
            let k = rd.get_expanded_circuit();
            let some = Engine::new().go(&k, rd.configuration()).is_some();
            Some((some, waves()))
        }).unwrap_or(None)
    };
    let _ = std::fs::remove_dir_all("waves");
    let more: &[&str] = r.pick(&[&[][..], &[][..], &["-v"][..], &["other.spi"][..], &["none.spi", "other.spi"][..], &["sub"][..]]);
    std::fs::write("other.spi", "title\nV1 a 0 1\nR1 a 0 1k\n.control\ntran 1u 2u\n.endc\n").unwrap();
    desc(format!("{} {}, where {} is:\n{}", name, more.join(" "), name, text));
    // the same deck may be given by its absolute path: the waveforms are the same, in files of their own below waves
    let abs = r.chance(1, 4);
    let given = if abs { std::env::current_dir().unwrap().join(&name).to_string_lossy().into_owned() } else { name.clone() };
    if abs { desc(format!("{} {}, where {} is:\n{}", given, more.join(" "), name, text)); }
    let o = Command::new(&exe).arg(&given).args(more).stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| format!("the program does not start: {}", e))?;
    let got = waves();
    let said = String::from_utf8_lossy(&o.stdout).contains("\n*INFO* Done");
    c.nontrivial = bad.is_some() || want.as_ref().map_or(false, |w| w.0);
    let want = match want { Some(w) => w, None => return Ok(()) };
    if let Some(b) = bad {
        if !got.is_empty() { return Err(format!("the deck has the bad line '{}', and is simulated: {:?}", b, got.keys())); }
        if said { return Err(format!("the deck has the bad line '{}', and an analysis is run", b)); }
        return Ok(());
    }
    if !o.status.success() { return Err(format!("the program fails ({}) on a correct deck", o.status)); }
    if said != want.0 { return Err(format!("the deck {} an analysis that runs; the program {} one", if want.0 { "selects" } else { "does not select" }, if said { "ran" } else { "did not run" })); }
    if abs {
        let (g, w): (Vec<&String>, Vec<&String>) = (got.values().collect(), want.1.values().collect());
        if g != w { return Err(format!("the waveform files are {:?}, with text other than that of the relative path's {:?}", got.keys(), want.1.keys())); }
        if std::fs::read_to_string(&name).ok().as_deref() != Some(&text) { return Err("the deck is no longer what it was".into()); }
        return Ok(());
    }
    if got != want.1 {
        let d = want.1.iter().find(|(k, v)| got.get(*k) != Some(v)).map(|x| x.0.clone()).unwrap_or_else(|| format!("{:?}", got.keys()));
        return Err(format!("the waveforms differ from those of the deck's circuit and settings: {}", d));
    }
    Ok(())
}
