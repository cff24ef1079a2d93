//! C01: the command-line program, with a model of the file system and the standard streams.
use super::e_ogg::*;
use super::mk::*;
use super::os::*;
use super::sym::*;
use optivorbis::*;
use std::io::Cursor;

/// the program itself
#[allow(dead_code)]
mod cli {
    include!("/repo/packages/optivorbis_cli/src/bin/optivorbis.rs");

    /// the exit status, if it returns
    pub fn call() -> i32 {
        use std::process::{ExitCode, Termination};
        i32::from(unsafe { std::mem::transmute::<ExitCode, u8>(main().report()) })
    }
}

const IN: i32 = 1000;
const OUT: i32 = 1001;
const EIO: i32 = 5;
const ENOENT: i32 = 2;
const ENOSPC: i32 = 28;

pub struct Files {
    pub on: bool,
    input: Vec<u8>,
    at: u64,
    output: Vec<u8>,
    created: bool,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    no_input: bool,
    no_output: bool,
    /// calls to the input until one fails (0: never)
    fail_in: u64,
    calls_in: u64,
    fail_out: u64,
    calls_out: u64,
    fired: bool,
    /// where the output file goes
    to: i32,
    most: usize,
    done: fn(i32),
}
struct Cell(std::cell::UnsafeCell<Files>);
unsafe impl Sync for Cell {}
static FILES: Cell = Cell(std::cell::UnsafeCell::new(Files {
    on: false,
    input: vec![],
    at: 0,
    output: vec![],
    created: false,
    stdout: vec![],
    stderr: vec![],
    no_input: false,
    no_output: false,
    fail_in: 0,
    calls_in: 0,
    fail_out: 0,
    calls_out: 0,
    fired: false,
    to: OUT,
    most: usize::MAX,
    done: |_| (),
}));
#[allow(clippy::mut_from_ref)]
pub fn files() -> &'static mut Files {
    unsafe { &mut *FILES.0.get() }
}
fn fails(e: i32) -> i32 {
    world().errno = e;
    -1
}
unsafe fn named(p: *const u8, want: &[u8]) -> bool {
    want.iter().enumerate().all(|(i, b)| unsafe { *p.add(i) } == *b)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn os_open64(p: *const u8, flags: i32, _mode: u32) -> i32 {
    let f = files();
    unsafe {
        // read only
        if named(p, b"in.ogg\0") && flags & 3 == 0 {
            return if f.no_input { fails(ENOENT) } else { IN };
        }
        // write, create, truncate
        if named(p, b"out") && flags & 3 == 1 && flags & 0o1100 == 0o1100 {
            if f.no_output {
                return fails(ENOSPC);
            }
            f.created = true;
            f.output.clear();
            return OUT;
        }
    }
    fails(ENOENT)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn os_read(fd: i32, p: *mut u8, n: usize) -> isize {
    let f = files();
    if fd != IN {
        return fails(9) as isize;
    }
    f.calls_in += 1;
    if f.calls_in == f.fail_in {
        f.fired = true;
        return fails(EIO) as isize;
    }
    let rest = &f.input[(f.at as usize).min(f.input.len())..];
    let n = n.min(rest.len()).min(f.most);
    for i in 0..n {
        unsafe { *p.add(i) = rest[i] };
    }
    f.at += n as u64;
    n as isize
}
#[unsafe(no_mangle)]
pub extern "C" fn os_lseek64(fd: i32, to: i64, how: i32) -> i64 {
    let f = files();
    if fd != IN {
        return fails(29) as i64;
    }
    f.calls_in += 1;
    if f.calls_in == f.fail_in {
        f.fired = true;
        return fails(EIO) as i64;
    }
    f.at = match how {
        0 => to,
        1 => f.at as i64 + to,
        _ => f.input.len() as i64 + to,
    } as u64;
    f.at as i64
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn os_write(fd: i32, p: *const u8, n: usize) -> isize {
    let f = files();
    let mut n = n;
    if fd == f.to {
        f.calls_out += 1;
        if f.calls_out == f.fail_out {
            f.fired = true;
            return fails(ENOSPC) as isize;
        }
        n = n.min(f.most);
    }
    let to = match fd {
        1 => &mut f.stdout,
        2 => &mut f.stderr,
        OUT => &mut f.output,
        _ => return fails(9) as isize,
    };
    to.extend_from_slice(unsafe { std::slice::from_raw_parts(p, n) });
    n as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn os___xpg_strerror_r(_code: i32, p: *mut u8, n: usize) -> i32 {
    for (i, b) in b"some error\0".iter().take(n).enumerate() {
        unsafe { *p.add(i) = *b };
    }
    0
}
#[unsafe(no_mangle)]
pub extern "C" fn os_close(_fd: i32) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub extern "C" fn os_isatty(_fd: i32) -> i32 {
    0
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn os_exit(code: i32) {
    let f = files();
    f.on = false;
    (f.done)(code);
    stop()
}

/// runs the program with these arguments; it ends in `done`, with its exit status
fn run(args: &[&[u8]], done: fn(i32)) {
    let mut all: Vec<Vec<u8>> = vec![b"optivorbis".to_vec()];
    all.extend(args.iter().map(|a| a.to_vec()));
    for a in &mut all {
        a.push(0);
    }
    let mut ptrs: Vec<*const u8> = all.iter().map(|a| a.as_ptr()).collect();
    ptrs.push(std::ptr::null());
    let (all, ptrs) = (all.leak(), ptrs.leak());
    program_args(all.len(), ptrs.as_ptr());
    files().done = done;
    files().on = true;
    std::process::exit(cli::call());
}

/// a file with one stream that has a start offset
fn offset_file(damaged: bool) -> Vec<u8> {
    let h = headers(44100);
    let mut p: Vec<(Vec<u8>, bool)> = h.src.iter().enumerate().map(|(i, p)| (p.clone(), i != 1)).collect();
    for i in 0..4 {
        p.push((fixed(i & 1, i as u64), i & 1 == 1));
    }
    let (mut pages, ends) = paginate(5, &p, true);
    for g in &mut pages {
        g.gp = 0;
    }
    pages[ends[4]].gp = 1000;
    pages[ends[6]].gp = 1160;
    let mut f = join(&pages);
    if damaged {
        f[22] ^= 1;
    }
    f
}
fn foreign_file() -> Vec<u8> {
    let (pages, _) = paginate(5, &[(b"fLaC_".to_vec(), true), (vec![1, 2], true)], true);
    join(&pages)
}

/// what a file is expected to become, and the failure message that is expected instead
struct Want {
    out: Option<Vec<u8>>,
    any: bool,
}
struct WantCell(std::cell::UnsafeCell<Want>);
unsafe impl Sync for WantCell {}
static WANT: WantCell = WantCell(std::cell::UnsafeCell::new(Want { out: None, any: false }));
#[allow(clippy::mut_from_ref)]
fn want() -> &'static mut Want {
    unsafe { &mut *WANT.0.get() }
}

fn good_bool(v: &[u8]) -> Option<bool> {
    if same(v, b"true") {
        Some(true)
    } else if same(v, b"false") {
        Some(false)
    } else {
        None
    }
}
fn good_u32(v: &[u8]) -> Option<u32> {
    let d = if v.first() == Some(&b'+') { &v[1..] } else { v };
    if d.is_empty() {
        return None;
    }
    let mut n = 0u64;
    for b in d {
        if !b.is_ascii_digit() {
            return None;
        }
        n = (n * 10 + (*b - b'0') as u64).min(1 << 40);
    }
    u32::try_from(n).ok()
}

/// any bytes an argument may have
fn text(n: usize, tag: &str) -> Vec<u8> {
    let v = sym_vec(n, tag);
    for b in &v {
        assume(*b != 0);
    }
    v
}
fn ogg_name(v: &[u8]) -> bool {
    let dot = v.iter().rposition(|b| *b == b'.');
    dot.is_some_and(|d| [&b"ogg"[..], b"oga", b"ogx"].iter().any(|e| same(&v[d + 1..], e)))
}

const REMUXER_OPTIONS: [&[u8]; 5] =
    [b"randomize_stream_serials", b"first_stream_serial_offset", b"ignore_start_sample_offset", b"error_on_no_vorbis_streams", b"verify_ogg_page_checksums"];

/// options and their effects
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cli_options() {
    let len = param(0);
    let f = files();
    f.input = match choice(3, "file") {
        0 => offset_file(false),
        1 => offset_file(true),
        _ => foreign_file(),
    };
    let mut st = remuxer::ogg_to_ogg::Settings::default();
    let mut os = VorbisOptimizerSettings::default();
    let mut args: Vec<Vec<u8>> = vec![];
    let mut valid = true;
    // the value of one option, or no option
    let which = choice(8, "option");
    if which > 0 {
        let mut v = match which {
            6 | 7 => pick(&[&b"copy"[..], b"replace", b"appendTag", b"appendShortTag", b"empty", b"delete", b"appendtag", b""], "value").to_vec(),
            2 => pick(&[&b"0"[..], b"77", b"4294967295", b"4294967296", b"-1", b"true", b"", b"\xfftrue", b"?"], "value").to_vec(),
            _ => pick(&[&b"true"[..], b"false", b"TRUE", b"1", b"", b"\xfftrue", b"?"], "value").to_vec(),
        };
        if v == b"?" {
            v = text(1 + choice(len, "length"), "value");
            for b in &v {
                assume(*b >= 32 && *b < 127);
            }
            if which == 2 {
                // valid or not: the serial itself does not matter
                f.input = foreign_file();
                args.push(b"--remuxer_option=error_on_no_vorbis_streams=false".to_vec());
                st.error_on_no_vorbis_streams = false;
            }
        }
        let name: &[u8] = match which {
            6 => b"--vendor_string_action",
            7 => b"--comment_fields_action",
            _ => b"--remuxer_option",
        };
        let mut value = vec![];
        if which < 6 {
            value.extend_from_slice(REMUXER_OPTIONS[which - 1]);
            value.push(b'=');
        }
        value.extend_from_slice(&v);
        if flip("one argument") {
            let mut a = name.to_vec();
            a.push(b'=');
            a.extend_from_slice(&value);
            args.push(a);
        } else {
            args.push(name.to_vec());
            args.push(value);
        }
        match which {
            1 => good_bool(&v).map(|b| st.randomize_stream_serials = b),
            2 => good_u32(&v).map(|n| st.first_stream_serial_offset = n),
            3 => good_bool(&v).map(|b| st.ignore_start_sample_offset = b),
            4 => good_bool(&v).map(|b| st.error_on_no_vorbis_streams = b),
            5 => good_bool(&v).map(|b| st.verify_ogg_page_checksums = b),
            6 => match &v[..] {
                b"copy" => Some(os.vendor_string_action = VorbisVendorStringAction::Copy),
                b"replace" => Some(os.vendor_string_action = VorbisVendorStringAction::Replace),
                b"appendTag" => Some(os.vendor_string_action = VorbisVendorStringAction::AppendTag),
                b"appendShortTag" => Some(os.vendor_string_action = VorbisVendorStringAction::AppendShortTag),
                b"empty" => Some(os.vendor_string_action = VorbisVendorStringAction::Empty),
                _ => None,
            },
            _ => match &v[..] {
                b"copy" => Some(os.comment_fields_action = VorbisCommentFieldsAction::Copy),
                b"delete" => Some(os.comment_fields_action = VorbisCommentFieldsAction::Delete),
                _ => None,
            },
        }
        .unwrap_or_else(|| valid = false);
    }
    // a second remuxer option, in front
    if which != 1 && flip("serials in order") {
        st.randomize_stream_serials = false;
        args.insert(0, b"--remuxer_option=randomize_stream_serials=false".to_vec());
    }
    args.push(b"-q".to_vec());
    world().fixed = true;
    let r = OggToOgg::new(st, os).remux(Cursor::new(&f.input[..]), vec![]);
    want().out = if valid { r.ok() } else { None };
    args.push(b"in.ogg".to_vec());
    args.push(b"out.ogg".to_vec());
    let args: Vec<&[u8]> = args.iter().map(|a| &a[..]).collect();
    run(&args, options_done);
}
fn options_done(code: i32) {
    let f = files();
    observe(code as u64);
    observe(f.output.len() as u64);
    match &want().out {
        Some(w) => {
            check(code == 0, "the program succeeds");
            check(same(&f.output, w), "the output is what the options ask for");
            check(f.stderr.is_empty() && f.stdout.is_empty(), "a quiet run prints nothing");
            cover("done");
        }
        None => {
            check(code != 0, "invalid options and files make the program fail");
            check(!f.stderr.is_empty(), "a failure is explained");
            cover("refused");
        }
    }
}

/// file arguments, remuxer, standard output, verbosity
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cli_usage() {
    let f = files();
    f.input = offset_file(false);
    world().fixed = true;
    let mut args: Vec<&[u8]> = vec![];
    let mut good = true;
    let help = choice(5, "information");
    match help {
        0 => {}
        1 => args.push(b"-h"),
        2 => args.push(b"--help"),
        3 => args.push(b"--version"),
        _ => {
            args.push(pick(&[&b"--nonsense"[..], b"-x", b"--quiet=1"], "unknown"));
            good = false;
        }
    }
    let quiet = choice(3, "quiet");
    if quiet > 0 {
        args.push(if quiet == 1 { b"-q" } else { b"--quiet" });
    }
    let v = if help == 0 { choice(3, "verbose") } else { 0 };
    for _ in 0..v {
        args.push(b"-v");
    }
    let mut remuxer = false;
    let mut unicode = true;
    match choice(if quiet < 2 && v < 2 { 4 } else { 3 }, "remuxer") {
        0 => {}
        1 => {
            args.push(b"-r");
            args.push(b"ogg2ogg");
            remuxer = true;
        }
        2 => {
            args.push(b"--remuxer=ogg2ogg");
            remuxer = true;
        }
        _ => {
            // one byte is altered
            let mut r = b"--remuxer=ogg2ogg".to_vec();
            let (i, b) = (10 + choice(7, "altered"), text(1, "byte")[0]);
            good &= b == r[i];
            unicode = b < 128;
            remuxer = true;
            r[i] = b;
            args.push(r.leak());
        }
    }
    let n = choice(4, "files");
    let (plain, any): (&[&[u8]], _) = (&[b"out.ogg", b"-"], remuxer || quiet > 1 || help > 0);
    let mut out = if any { pick(plain, "output") } else { pick(&[&b"out.ogg"[..], b"out.oga", b"out.ogx", b"out.mp3", b"out.ogg.", b"out", b"-", b"?"], "output") };
    if out == b"?" {
        let mut v = b"out.".to_vec();
        v.extend_from_slice(&text(3, "extension"));
        for b in &v {
            assume(*b != b'/' && *b < 128);
        }
        out = v.leak();
    }
    if n > 0 {
        args.push(if n == 3 { b"missing.ogg" } else { b"in.ogg" });
    }
    if n > 1 {
        args.push(out);
    }
    let mut few = n < 2;
    if n == 2 && flip("one more") {
        args.push(b"third");
        few = true;
    }
    good &= n == 2 && !few && (remuxer || ogg_name(out));
    let info = (1..4).contains(&help) && unicode;
    good &= help == 0;
    f.to = if out == b"-" { 1 } else { OUT };
    let st = remuxer::ogg_to_ogg::Settings::default();
    let w = want();
    w.out = if info || !good { None } else { OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(&f.input[..]), vec![]).ok() };
    w.any = info;
    if info {
        return run(&args, info_done);
    }
    run(&args, if quiet > 0 { quiet_done } else { usage_done });
}
fn info_done(code: i32) {
    let f = files();
    observe(code as u64);
    check(code == 0 && !f.stdout.is_empty(), "information is printed");
    check(f.stderr.is_empty() && !f.created && f.calls_in == 0, "nothing else happens");
    cover("information");
}
fn usage_done(code: i32) {
    let f = files();
    observe(code as u64);
    observe(f.stdout.len() as u64);
    match &want().out {
        Some(w) => {
            check(code == 0, "the program succeeds");
            check(same(if f.to == 1 { &f.stdout } else { &f.output }, w), "the output is complete");
            check(f.to != 1 || !f.created, "no file is created for the standard output");
            cover("done");
        }
        None => {
            check(code != 0 && !f.stderr.is_empty(), "a failure is reported");
            check(f.output.is_empty(), "nothing is written then");
            cover("refused");
        }
    }
}
fn quiet_done(code: i32) {
    let f = files();
    usage_done(code);
    if code == 0 {
        check(f.stderr.is_empty() && (f.to == 1 || f.stdout.is_empty()), "a quiet run prints nothing");
    }
}

/// errors of the operating system
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_cli_faults() {
    let f = files();
    world().fixed = true;
    f.input = offset_file(false);
    // more than fits the buffer of a file
    let big = choice(2, "size");
    if big == 1 {
        let h = headers(44100);
        let mut p: Vec<(Vec<u8>, bool)> = h.src.iter().enumerate().map(|(i, p)| (p.clone(), i != 1)).collect();
        for i in 0..param(0) {
            let mut a = fixed(0, 1 + i as u64);
            a.resize(2000, 0x55);
            p.push((a, true));
        }
        f.input = join(&paginate(5, &p, true).0);
    }
    let st = remuxer::ogg_to_ogg::Settings::default();
    want().out = OggToOgg::new(st, VorbisOptimizerSettings::default()).remux(Cursor::new(&f.input[..]), vec![]).ok();
    check(want().out.is_some(), "the file is accepted");
    let std = flip("standard output");
    f.to = if std { 1 } else { OUT };
    f.most = pick(&[usize::MAX, 1000], "bytes at once");
    match choice(5, "fault") {
        0 => {}
        1 => f.no_input = true,
        2 => {
            f.no_output = true;
            assume(!std);
        }
        3 => f.fail_in = bits(32, "failing call"),
        _ => f.fail_out = bits(32, "failing call"),
    }
    let quiet = flip("quiet");
    let out: &[u8] = if std { b"-" } else { b"out.ogg" };
    let mut args: Vec<&[u8]> = vec![b"-r", b"ogg2ogg"];
    if quiet {
        args.push(b"-q");
    }
    args.push(b"in.ogg");
    args.push(out);
    run(&args, faults_done);
}
fn faults_done(code: i32) {
    let f = files();
    observe(code as u64);
    let failed = f.fired || f.no_input || f.no_output;
    check((code != 0) == failed, "the exit status tells whether there was an error");
    check(!failed || !f.stderr.is_empty(), "a failure is explained");
    if let (false, Some(w)) = (failed, &want().out) {
        check(same(if f.to == 1 { &f.stdout } else { &f.output }, w), "the output is complete");
    }
    cover(if failed { "failed" } else { "complete" });
}
