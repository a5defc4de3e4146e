//! Parser of the contract files (`*.vc`).
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub path: String,
    pub ret: Option<String>,
    pub attrs: String,
    pub spec: String,
    pub sig: Option<String>,
    pub ret_ty: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub loop_kinds: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub panics: BTreeMap<usize, String>,
    pub opts: Vec<String>,
    pub trait_fn: bool,
}

#[derive(Debug, Clone)]
pub enum Entry {
    Text(String),
    Fn(FnContract),
    Item(String, String), // item name, extra attributes
    ImplOpen(String),     // verbatim header for the following functions
    ImplClose,
}

#[derive(Default, Debug, Clone)]
pub struct Module {
    pub name: String,
    pub src: String,
    pub file: String,
    pub entries: Vec<Entry>,
}

pub fn parse(file: &str, text: &str) -> Result<Vec<Module>, String> {
    let mut mods: Vec<Module> = vec![];
    let mut cur: Option<FnContract> = None;
    // current sink
    enum Sink {
        None,
        Text(String),
        Spec,
        Loop(usize),
        Hint(String),
    }
    let mut sink = Sink::None;
    fn flush_text(mods: &mut Vec<Module>, sink: &mut Sink) {
        if let Sink::Text(t) = sink {
            let t = std::mem::take(t);
            if let Some(m) = mods.last_mut() {
                m.entries.push(Entry::Text(t));
            }
            *sink = Sink::None;
        }
    }
    fn flush_fn(mods: &mut Vec<Module>, cur: &mut Option<FnContract>) {
        if let Some(f) = cur.take() {
            mods.last_mut().unwrap().entries.push(Entry::Fn(f));
        }
    }
    for (ln, line) in text.lines().enumerate() {
        if let Some(rest) = line.strip_prefix('@') {
            let (kw, arg) = match rest.find(char::is_whitespace) {
                Some(i) => (&rest[..i], rest[i..].trim()),
                None => (rest, ""),
            };
            flush_text(&mut mods, &mut sink);
            sink = Sink::None;
            match kw {
                "module" => {
                    flush_fn(&mut mods, &mut cur);
                    let (name, src) = arg.split_once('=').ok_or(format!("{file}:{ln}: @module"))?;
                    mods.push(Module {
                        name: name.trim().into(),
                        src: src.trim().into(),
                        file: file.into(),
                        entries: vec![],
                    });
                }
                "text" => {
                    flush_fn(&mut mods, &mut cur);
                    sink = Sink::Text(String::new());
                }
                "item" => {
                    flush_fn(&mut mods, &mut cur);
                    let (n, a) = match arg.split_once(char::is_whitespace) {
                        Some((n, a)) => (n, a.trim()),
                        None => (arg, ""),
                    };
                    mods.last_mut().unwrap().entries.push(Entry::Item(n.into(), a.into()));
                }
                "impl" => {
                    flush_fn(&mut mods, &mut cur);
                    mods.last_mut().unwrap().entries.push(Entry::ImplOpen(arg.into()));
                }
                "endimpl" => {
                    flush_fn(&mut mods, &mut cur);
                    mods.last_mut().unwrap().entries.push(Entry::ImplClose);
                }
                "fn" => {
                    flush_fn(&mut mods, &mut cur);
                    cur = Some(FnContract { path: arg.into(), ..Default::default() });
                }
                "" | "#" => {}
                _ => {
                    let f = cur.as_mut().ok_or(format!("{file}:{}: @{kw} outside @fn", ln + 1))?;
                    match kw {
                        "ret" => f.ret = Some(arg.into()),
                        "attr" => {
                            f.attrs.push_str(arg);
                            f.attrs.push('\n');
                        }
                        "sig" => f.sig = Some(arg.into()),
                        "retty" => f.ret_ty = Some(arg.into()),
                        "opt" => f.opts.push(arg.into()),
                        "trait" => f.trait_fn = true,
                        "spec" => sink = Sink::Spec,
                        "loop" => {
                            let k: usize = arg.parse().map_err(|_| format!("{file}:{}: @loop", ln + 1))?;
                            f.loops.insert(k, String::new());
                            sink = Sink::Loop(k);
                        }
                        "loopkind" => {
                            let (k, v) = arg.split_once(' ').ok_or("loopkind")?;
                            f.loop_kinds.insert(k.parse().unwrap(), v.trim().into());
                        }
                        "panic" => {
                            let (k, v) = arg.split_once(' ').ok_or("panic")?;
                            f.panics.insert(k.parse().unwrap(), v.trim().into());
                        }
                        "hint" => {
                            f.hints.push((arg.to_string(), String::new()));
                            sink = Sink::Hint(arg.into());
                        }
                        _ => return Err(format!("{file}:{}: unknown @{kw}", ln + 1)),
                    }
                }
            }
            continue;
        }
        match &mut sink {
            Sink::None => {
                if !line.trim().is_empty() {
                    return Err(format!("{file}:{}: stray text {line:?}", ln + 1));
                }
            }
            Sink::Text(t) => {
                t.push_str(line);
                t.push('\n');
            }
            Sink::Spec => {
                let s = &mut cur.as_mut().unwrap().spec;
                s.push_str(line);
                s.push('\n');
            }
            Sink::Loop(k) => {
                let s = cur.as_mut().unwrap().loops.get_mut(k).unwrap();
                s.push_str(line);
                s.push('\n');
            }
            Sink::Hint(_) => {
                let s = &mut cur.as_mut().unwrap().hints.last_mut().unwrap().1;
                s.push_str(line);
                s.push('\n');
            }
        }
    }
    flush_text(&mut mods, &mut sink);
    flush_fn(&mut mods, &mut cur);
    Ok(mods)
}
