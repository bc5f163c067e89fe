//! The real thing: text or structs in, generated code out.

use crate::cfg::*;
use crate::gen::{self, Opts};
use crate::tape::Tape;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        }
    })
}

pub fn parse(text: &str) -> Result<wayfinder::RouteConfig, String> {
    guarded(|| match wayfinder::parse::route_config(text) {
        Ok((rest, c)) => {
            if rest.0.is_empty() {
                Ok(c)
            } else {
                Err(format!("unparsed rest {:?}", rest.0))
            }
        }
        e => {
            let mut out = vec![];
            wayfinder::parse::errors::show_errors(&mut out, text, e, "");
            Err(String::from_utf8_lossy(&out).to_string())
        }
    })
    .unwrap_or_else(|p| Err(format!("PANIC {}", p)))
}

pub fn codegen(c: &wayfinder::RouteConfig) -> Result<String, String> {
    match guarded(|| {
        let mut v: Vec<u8> = vec![];
        wayfinder::gen::codegen(&mut v, c).map(|_| v)
    }) {
        Err(p) => Err(format!("code generation panicked: {}", p)),
        Ok(Err(e)) => Err(format!("code generation failed: {}", e)),
        Ok(Ok(v)) => String::from_utf8(v).map_err(|_| "code is not UTF-8".to_string()),
    }
}

/// A configuration and how it is handed in
#[derive(Clone, Debug)]
pub struct Source {
    pub cfg: Cfg,
    pub text: Option<String>,
}

impl Source {
    pub fn gen(t: &mut Tape, adjust: &dyn Fn(&mut Tape, &mut Opts)) -> Source {
        let text = !t.chance(1, 3);
        let mut o = Opts::new(text);
        adjust(t, &mut o);
        let cfg = gen::config(t, &o);
        Source::of(t, cfg, text)
    }

    pub fn of(t: &mut Tape, cfg: Cfg, text: bool) -> Source {
        if text {
            let layout = Layout::gen(t);
            let s = to_text(&cfg, &layout);
            Source { cfg, text: Some(s) }
        } else {
            Source { cfg, text: None }
        }
    }

    pub fn real(&self) -> Result<wayfinder::RouteConfig, String> {
        match self.text {
            Some(ref t) => parse(t).map_err(|e| format!("the route file is refused:\n{}", e)),
            None => Ok(self.cfg.real()),
        }
    }

    pub fn code(&self) -> Result<String, String> {
        self.real().and_then(|c| codegen(&c))
    }

    pub fn show(&self) -> String {
        match self.text {
            Some(ref t) => format!("route file:\n{}", indent(t)),
            None => format!("route config structs, as a route file:\n{}", indent(&to_text(&self.cfg, &Layout::default()))),
        }
    }
}

pub fn indent(s: &str) -> String {
    s.replace('\r', "\\r").lines().map(|l| format!("    {}\n", l)).collect()
}
