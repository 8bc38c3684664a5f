//! Contract files. A unit is a list of `@` directives:
//!   @include FILE            another contract file
//!   @raw ... @end            Verus text (specification functions, lemmas, library contracts)
//!   @type NAME               the enum / struct NAME of the repository, with its derived instances
//!   @const NAME
//!   @macro NAME VALUE        items of macro NAME expanded at VALUE
//!   @stub NAME ...           names whose contracts are in a @raw section
//!   @fn KEY                  a function of the repository under contract; followed by
//!       @sig TEXT | ORIG     signature override (ORIG: the tokens it stands for)
//!       @flags ...           panics-ok | rlimit=N | attr=...
//!       @props C04 ...       the properties whose argument uses this contract
//!       @spec                requires / ensures / decreases text up to the next directive
//!       @entry               proof text at the start
//!       @exit                proof text before the final expression ($r the value)
//!       @loop K              invariants ($acc, $acc1, $i, $done (rounds so far), $s, $t, $n), one per line
//!       @body K / @tail K / @before K / @after K   proof text around and in loop K
//!       @dec K               decreases of a user loop
//!       @map A => B          source expression A is extracted as B
//!       @closure NAME ...    contract of a local closure (as a function)
//!   @lemma-of PROP ...       free text, ignored here
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub inv: Vec<String>,
    pub body: String,
    pub tail: String,
    pub mid: String,
    pub before: String,
    pub after: String,
    pub dec: String,
    pub ens: Vec<String>,
    pub ty: Vec<String>,
}
#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub key: String,
    pub sig: Option<(String, String)>,
    pub flags: Vec<String>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub maps: Vec<(String, String)>,
    pub closures: BTreeMap<String, FnC>,
    pub props: Vec<String>,
}
#[derive(Clone, Debug)]
pub enum Item {
    Raw(String),
    Type(String),
    Const(String),
    Alias(String),
    Lang(String, String),
    Fn(FnC),
}
#[derive(Default, Debug)]
pub struct Unit {
    pub items: Vec<Item>,
    pub stubs: Vec<String>,
    pub macros: Vec<(String, String)>,
    pub retypes: Vec<(String, String)>,
    pub mono: Option<String>,
    pub loaded: Vec<String>,
}

pub fn load(dir: &std::path::Path, file: &str, u: &mut Unit) -> Result<(), String> {
    if u.loaded.iter().any(|f| f == file) {
        return Ok(());
    }
    u.loaded.push(file.into());
    let text = std::fs::read_to_string(dir.join(file)).map_err(|e| format!("{}: {}", file, e))?;
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    // current function (and closure inside it)
    let mut cur: Option<FnC> = None;
    let mut clo: Option<(String, FnC)> = None;
    fn close(cur: &mut Option<FnC>, clo: &mut Option<(String, FnC)>, u: &mut Unit) {
        if let (Some((n, c)), Some(f)) = (clo.take(), cur.as_mut()) {
            f.closures.insert(n, c);
        }
        if let Some(f) = cur.take() {
            u.items.push(Item::Fn(f));
        }
    }
    while i < lines.len() {
        let l = lines[i].trim();
        i += 1;
        if !l.starts_with('@') {
            continue;
        }
        let (d, rest) = l[1..].split_once(char::is_whitespace).unwrap_or((&l[1..], ""));
        let rest = rest.trim();
        let mut block = || {
            let mut s = vec![];
            while i < lines.len() && !lines[i].trim_start().starts_with('@') {
                s.push(lines[i]);
                i += 1;
            }
            s
        };
        match d {
            "include" => {
                close(&mut cur, &mut clo, u);
                load(dir, rest, u)?
            }
            "raw" => {
                close(&mut cur, &mut clo, u);
                let b = block().join("\n");
                u.items.push(Item::Raw(b));
            }
            "type" => {
                close(&mut cur, &mut clo, u);
                u.items.push(Item::Type(rest.into()))
            }
            "const" => {
                close(&mut cur, &mut clo, u);
                u.items.push(Item::Const(rest.into()))
            }
            // @lang NAME <generics> : an egg language and the text of its operators
            "lang" => {
                close(&mut cur, &mut clo, u);
                let (a, b) = rest.split_once(' ').unwrap_or((rest, ""));
                u.items.push(Item::Lang(a.into(), b.trim().into()))
            }
            "alias" => {
                close(&mut cur, &mut clo, u);
                u.items.push(Item::Alias(rest.into()))
            }
            // T written without arguments means T<..>
            "retype" => {
                let (a, b) = rest.split_once(' ').ok_or("@retype NAME TYPE")?;
                u.retypes.push((a.into(), b.trim().into()))
            }
            "macro" => {
                let (a, b) = rest.split_once(' ').ok_or("@macro NAME VALUE")?;
                u.macros.push((a.into(), b.trim().into()))
            }
            // @mono PARAMS / TRAIT / TYPES : see mono.rs
            "mono" => u.mono = Some(rest.into()),
            "stub" => {
                for s in rest.split_whitespace() {
                    u.stubs.push(s.to_string());
                    // ~NAME: also takes the state of the outside world
                    if let Some(n) = s.strip_prefix('~') {
                        u.stubs.push(n.to_string());
                    }
                }
            }
            "fn" => {
                close(&mut cur, &mut clo, u);
                cur = Some(FnC { key: rest.into(), ..Default::default() });
            }
            "closure" => {
                if let (Some((n, c)), Some(f)) = (clo.take(), cur.as_mut()) {
                    f.closures.insert(n, c);
                }
                clo = Some((rest.into(), FnC { key: rest.into(), ..Default::default() }));
            }
            "end" => close(&mut cur, &mut clo, u),
            _ => {
                let b = block();
                let f = match (&mut clo, &mut cur) {
                    (Some((_, c)), _) => c,
                    (None, Some(f)) => f,
                    _ => return Err(format!("{}:{}: @{} outside @fn", file, i, d)),
                };
                let text = b.join("\n");
                let k = || rest.split_whitespace().next().and_then(|s| if s == "*" { Some(usize::MAX) } else { s.parse::<usize>().ok() }).ok_or(format!("{}:{}: loop number", file, i));
                match d {
                    "sig" => {
                        let (a, o) = rest.split_once(" | ").unwrap_or((rest, ""));
                        f.sig = Some((a.trim().into(), o.trim().into()))
                    }
                    "flags" => f.flags.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "props" => f.props.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "spec" => f.spec = text,
                    "entry" => f.entry = text,
                    "exit" => f.exit = text,
                    "loop" => f.loops.entry(k()?).or_default().inv.extend(b.iter().map(|s| s.trim().trim_end_matches(',').to_string()).filter(|s| !s.is_empty() && !s.starts_with("//"))),
                    "lens" => f.loops.entry(k()?).or_default().ens.extend(b.iter().map(|s| s.trim().trim_end_matches(',').to_string()).filter(|s| !s.is_empty() && !s.starts_with("//"))),
                    "body" => f.loops.entry(k()?).or_default().body = text,
                    "mid" => f.loops.entry(k()?).or_default().mid = text,
                    "tail" => f.loops.entry(k()?).or_default().tail = text,
                    "before" => f.loops.entry(k()?).or_default().before = text,
                    "after" => f.loops.entry(k()?).or_default().after = text,
                    // types of $acc, $acc1, ... separated by ` ; `
                    "ty" => f.loops.entry(k()?).or_default().ty = rest.split_once(' ').map_or(vec![], |x| x.1.split(" ; ").map(|s| s.trim().to_string()).collect()),
                    "dec" => f.loops.entry(k()?).or_default().dec = rest.split_once(' ').map_or(String::new(), |x| x.1.to_string()),
                    "map" => {
                        let (a, b) = rest.split_once(" => ").ok_or("@map A => B")?;
                        f.maps.push((a.trim().into(), b.trim().into()))
                    }
                    _ => return Err(format!("{}:{}: @{}", file, i, d)),
                }
            }
        }
    }
    close(&mut cur, &mut clo, u);
    Ok(())
}
