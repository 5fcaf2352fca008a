//! A project with things around it that must not be reached, and names that try to reach them.

use crate::{
    runner::fail,
    tape::Src,
    world::{project, R},
};
use std::{
    collections::BTreeMap,
    os::unix::fs::{symlink, PermissionsExt},
    path::{Path, PathBuf},
};

pub const SECRET: &str = "TOPSECRET";
pub const SECRET_NAME: &str = "unguessable-name";

pub struct Hostile {
    pub proj: PathBuf,
    pub outside: PathBuf,
    before: BTreeMap<PathBuf, String>,
    private: BTreeMap<PathBuf, String>,
}

fn describe(p: &Path) -> String {
    let Ok(m) = std::fs::symlink_metadata(p) else {
        return "missing".into();
    };
    let mode = m.permissions().mode();
    if m.is_symlink() {
        format!("link to {:?}", std::fs::read_link(p))
    } else if m.is_dir() {
        format!("dir {mode:o}")
    } else {
        format!("file {mode:o} {:?}", String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()))
    }
}

fn snapshot(p: &Path, out: &mut BTreeMap<PathBuf, String>) {
    out.insert(p.to_path_buf(), describe(p));
    let is_dir = std::fs::symlink_metadata(p).is_ok_and(|m| m.is_dir());
    if is_dir {
        for e in std::fs::read_dir(p).expect("read_dir").flatten() {
            snapshot(&e.path(), out);
        }
    }
}

fn write(p: &Path, text: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
    std::fs::write(p, text).expect("write");
}

impl Hostile {
    pub fn new(scratch: &Path) -> Self {
        let proj = project(scratch, "proj");
        let outside = scratch.canonicalize().expect("canonicalize").join("outside");
        write(&outside.join("secret"), &format!("{SECRET} one\n"));
        write(&outside.join("sub/deep"), &format!("{SECRET} two\n"));
        write(&outside.join(SECRET_NAME), "");
        // A directory whose name starts like that of the project.
        write(&scratch.join("proj2/near"), &format!("{SECRET} three\n"));
        for (f, t) in [("f", "one\ntwo\n"), ("g", ""), ("sub/x", "x\n"), ("keep", "keep me\n"), ("sub/keep", "me too")] {
            write(&proj.join(f), t);
        }
        write(&proj.join(".git/config"), "[core]\n");
        write(&proj.join(".git/hooks/pre-commit"), "#!/bin/sh\n");
        write(&proj.join("sub/.git/HEAD"), "ref\n");
        write(&proj.join(".ethersync/key"), "key bytes");
        write(&proj.join(".ethersync/config"), "secret = abc\n");
        symlink("../outside", proj.join("link_dir")).expect("symlink");
        symlink(outside.join("secret"), proj.join("link_file")).expect("symlink");
        symlink("../outside/missing", proj.join("dangling")).expect("symlink");
        symlink("../outside/no/dir", proj.join("dangling_dir")).expect("symlink");
        symlink("sub", proj.join("link_in")).expect("symlink");
        symlink("loop", proj.join("loop")).expect("symlink");
        let mut h = Self {
            proj,
            outside,
            before: BTreeMap::new(),
            private: BTreeMap::new(),
        };
        h.before = h.surroundings();
        h.private = h.private_now();
        h
    }

    fn surroundings(&self) -> BTreeMap<PathBuf, String> {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(self.proj.parent().unwrap()).expect("read_dir").flatten() {
            if e.path() != self.proj {
                snapshot(&e.path(), &mut m);
            }
        }
        m
    }

    fn private_now(&self) -> BTreeMap<PathBuf, String> {
        let mut m = BTreeMap::new();
        for d in [".git", "sub/.git", ".ethersync"] {
            snapshot(&self.proj.join(d), &mut m);
        }
        // The daemon's own state.
        m.retain(|p, _| !p.file_name().is_some_and(|n| n == "doc" || n == "doc.new" || n == "socket"));
        m
    }

    fn same(what: &str, sig: &str, old: &BTreeMap<PathBuf, String>, new: &BTreeMap<PathBuf, String>) -> R<()> {
        for (p, d) in old {
            match new.get(p) {
                None => return fail(sig, format!("{what} {} is gone", p.display())),
                Some(n) if n != d => {
                    return fail(sig, format!("{what} {} was {d}, is {n}", p.display()));
                }
                _ => {}
            }
        }
        if let Some(p) = new.keys().find(|p| !old.contains_key(*p)) {
            return fail(sig, format!("{what} {} was created: {}", p.display(), new[p]));
        }
        Ok(())
    }

    /// Nothing next to the project has changed.
    pub fn check_outside(&self) -> R<()> {
        Self::same("outside the project,", "outside-changed", &self.before, &self.surroundings())
    }

    /// Nothing in `.git` and `.ethersync` has changed.
    pub fn check_private(&self) -> R<()> {
        Self::same("the private", "private-changed", &self.private, &self.private_now())
    }

    pub fn check_no_leak(&self, where_: &str, text: &str) -> R<()> {
        for s in [SECRET, SECRET_NAME] {
            if text.contains(s) {
                let t: String = text.chars().take(400).collect();
                return fail("outside-read", format!("{where_} shows something from outside the project: {t}"));
            }
        }
        Ok(())
    }

    /// A file name that means harm, or looks like it.
    pub fn name(&self, src: &mut Src) -> String {
        let out = self.outside.display().to_string();
        let proj = self.proj.display().to_string();
        let names: Vec<String> = vec![
            "../outside/secret".into(),
            "../outside/new".into(),
            "../outside/sub/deep".into(),
            "../outside/newdir/new".into(),
            "../proj2/near".into(),
            "../proj2/new".into(),
            "../new".into(),
            "sub/../../outside/new".into(),
            "sub/../../outside/secret".into(),
            "missing/../../outside/new".into(),
            "missing/../../outside/secret".into(),
            "missing/../f".into(),
            "sub/../f".into(),
            "./f".into(),
            "sub/./x".into(),
            "sub//x".into(),
            "sub/x/".into(),
            format!("{out}/secret"),
            format!("{out}/new"),
            format!("{out}/newdir/new"),
            format!("{proj}/f"),
            format!("{proj}/new"),
            format!("{proj}2/new"),
            format!("{proj}/../outside/new"),
            "link_dir/secret".into(),
            "link_dir/new".into(),
            "link_dir/newdir/new".into(),
            "link_dir/sub/deep".into(),
            "link_dir".into(),
            "link_dir/../outside/new".into(),
            "link_file".into(),
            "link_file/x".into(),
            "dangling".into(),
            "dangling/x".into(),
            "dangling_dir/new".into(),
            "link_in/x".into(),
            "link_in/new".into(),
            "link_in/../../outside/new".into(),
            "loop".into(),
            "loop/x".into(),
            "sub".into(),
            "f/x".into(),
            "..".into(),
            ".".into(),
            "sub/..".into(),
            "...".into(),
            "~/x".into(),
            "$HOME/x".into(),
            "%2e%2e/outside/new".into(),
            "..%2foutside%2fnew".into(),
            "..\\outside\\new".into(),
            "a\nb".into(),
            "a\tb ".into(),
            "n".repeat(300),
            "d/".repeat(50) + "x",
            "ü/中🥕".into(),
            "f\u{0}g".into(),
            "brand/new/dir/file".into(),
            "f".into(),
            "g".into(),
            "sub/x".into(),
        ];
        src.pick(&names).clone()
    }

    /// Names inside the private folders.
    pub fn private_name(&self, src: &mut Src) -> String {
        let names = [
            ".git/config",
            ".git/hooks/pre-commit",
            ".git/hooks/post-checkout",
            ".git/new/dir/file",
            ".git",
            ".ethersync",
            ".ethersync/key",
            ".ethersync/config",
            ".ethersync/new",
            "sub/.git/HEAD",
            "sub/.git/new",
            "./.git/config",
            "sub/../.git/config",
            ".git//config",
            "sub/../.ethersync/config",
            "missing/../.git/new",
            "link_in/.git/HEAD",
        ];
        match src.weighted(&[8, 1]) {
            0 => (*src.pick(&names)).to_string(),
            _ => format!("{}/.git/config", self.proj.display()),
        }
    }
}
