//! Names the public entry points of the crate under analysis with concrete stream types.
//! Nothing in here is ever executed; the functions only give the compiler something to
//! monomorphise. `In` and `Out` stand for an arbitrary input and output stream.
#![allow(clippy::all, dead_code)]

use gvas::cursor_ext::{ReadExt, WriteExt};
use gvas::custom_version::{CustomVersionTrait, FEditorObjectVersion, FUE5ReleaseStreamObjectVersion};
use gvas::engine_version::{EngineVersion, FEngineVersion};
use gvas::error::Error;
use gvas::game_version::{GameVersion, PalworldCompressionType};
use gvas::properties::text_property::*;
use gvas::properties::*;
use gvas::types::{Guid, map::HashableIndexMap};
use gvas::{GvasFile, GvasHeader};
use std::collections::HashMap;
use std::io::{Read, Result as IoResult, Seek, SeekFrom, Write};

pub struct In(u8);
pub struct Out(u8);

impl Read for In {
    fn read(&mut self, _: &mut [u8]) -> IoResult<usize> {
        unimplemented!()
    }
}
impl Seek for In {
    fn seek(&mut self, _: SeekFrom) -> IoResult<u64> {
        unimplemented!()
    }
}
impl Write for Out {
    fn write(&mut self, _: &[u8]) -> IoResult<usize> {
        unimplemented!()
    }
    fn flush(&mut self) -> IoResult<()> {
        unimplemented!()
    }
}
impl Seek for Out {
    fn seek(&mut self, _: SeekFrom) -> IoResult<u64> {
        unimplemented!()
    }
}

// properties
pub fn property_new(
    r: &mut In,
    value_type: &str,
    include_header: bool,
    options: &mut PropertyOptions,
    suggested_length: Option<u32>,
) -> Result<Property, Error> {
    Property::new(r, value_type, include_header, options, suggested_length)
}
pub fn property_write(
    p: &Property,
    w: &mut Out,
    include_header: bool,
    options: &mut PropertyOptions,
) -> Result<usize, Error> {
    p.write(w, include_header, options)
}
pub fn property_write_body(
    p: &Property,
    w: &mut Out,
    options: &mut PropertyOptions,
) -> Result<usize, Error> {
    p.write_body(w, options)
}

// texts
pub fn ftext_read(r: &mut In, options: &PropertyOptions) -> Result<FText, Error> {
    FText::read(r, options)
}
pub fn ftext_write(t: &FText, w: &mut Out, options: &PropertyOptions) -> Result<usize, Error> {
    t.write(w, options)
}
pub fn fhistory_read(r: &mut In, options: &PropertyOptions) -> Result<FTextHistory, Error> {
    FTextHistory::read(r, options)
}
pub fn fhistory_write(
    t: &FTextHistory,
    w: &mut Out,
    options: &PropertyOptions,
) -> Result<usize, Error> {
    t.write(w, options)
}
pub fn farg_write(
    t: &FormatArgumentValue,
    w: &mut Out,
    options: &PropertyOptions,
) -> Result<usize, Error> {
    t.write(w, options)
}
pub fn numfmt_read(r: &mut In) -> Result<NumberFormattingOptions, Error> {
    NumberFormattingOptions::read(r)
}
pub fn numfmt_write(t: &NumberFormattingOptions, w: &mut Out) -> Result<usize, Error> {
    t.write(w)
}

// file
pub fn header_read(r: &mut In) -> Result<GvasHeader, Error> {
    GvasHeader::read(r)
}
pub fn header_write(h: &GvasHeader, w: &mut Out) -> Result<usize, Error> {
    h.write(w)
}
pub fn file_read(r: &mut In, v: GameVersion) -> Result<GvasFile, Error> {
    GvasFile::read(r, v)
}
pub fn file_read_with_hints(
    r: &mut In,
    v: GameVersion,
    hints: &HashMap<String, String>,
) -> Result<GvasFile, Error> {
    GvasFile::read_with_hints(r, v, hints)
}
pub fn file_write(f: &GvasFile, w: &mut Out) -> Result<(), Error> {
    f.write(w)
}

// primitives
pub fn read_string(r: &mut In) -> Result<String, Error> {
    r.read_string()
}
pub fn read_fstring(r: &mut In) -> Result<Option<String>, Error> {
    r.read_fstring()
}
pub fn read_guid(r: &mut In) -> Result<Guid, Error> {
    r.read_guid()
}
pub fn read_bool(r: &mut In) -> Result<bool, Error> {
    r.read_bool()
}
pub fn read_b32(r: &mut In) -> Result<bool, Error> {
    r.read_b32()
}
pub fn write_string(w: &mut Out, v: &str) -> Result<usize, Error> {
    w.write_string(v)
}
pub fn write_string_owned(w: &mut Out, v: &String) -> Result<usize, Error> {
    w.write_string(v)
}
pub fn write_fstring(w: &mut Out, v: Option<&str>) -> Result<usize, Error> {
    w.write_fstring(v)
}
pub fn write_guid(w: &mut Out, v: &Guid) -> Result<(), Error> {
    w.write_guid(v)
}
pub fn write_bool(w: &mut Out, v: bool) -> Result<(), Error> {
    w.write_bool(v)
}
pub fn write_b32(w: &mut Out, v: bool) -> Result<(), Error> {
    w.write_b32(v)
}

macro_rules! enum_io {
    ($t:ty, $r:ident, $w:ident) => {
        pub fn $r(r: &mut In) -> Result<$t, Error> {
            r.read_enum()
        }
        pub fn $w(w: &mut Out, v: $t) -> Result<(), Error> {
            w.write_enum(v)
        }
    };
}
enum_io!(TextHistoryType, read_enum_history, write_enum_history);
enum_io!(FormatArgumentType, read_enum_argument, write_enum_argument);
enum_io!(RoundingMode, read_enum_rounding, write_enum_rounding);
enum_io!(DateTimeStyle, read_enum_datestyle, write_enum_datestyle);
enum_io!(TransformType, read_enum_transform, write_enum_transform);
enum_io!(PalworldCompressionType, read_enum_compression, write_enum_compression);

// engine and custom versions
pub fn table_editor() -> &'static [(EngineVersion, i32)] {
    <FEditorObjectVersion as CustomVersionTrait>::VERSION_MAPPINGS
}
pub fn table_release() -> &'static [(EngineVersion, i32)] {
    <FUE5ReleaseStreamObjectVersion as CustomVersionTrait>::VERSION_MAPPINGS
}
pub fn engine_version(v: &FEngineVersion) -> EngineVersion {
    v.get_version()
}

// ordered tables, next to what the wrapped table does
type Table = HashableIndexMap<String, u32>;
type Inner = <Table as std::ops::Deref>::Target;
pub fn tab_new() -> Table {
    Table::new()
}
pub fn tab_default() -> Table {
    Table::default()
}
pub fn tab_sized(n: usize) -> Table {
    Table::with_capacity(n)
}
pub fn tab_from(a: [(String, u32); 3]) -> Table {
    Table::from(a)
}
pub fn tab_from_ref(a: [(String, u32); 3]) -> Table {
    HashableIndexMap(Inner::from(a))
}
pub fn tab_view(t: &Table) -> &Inner {
    t
}
pub fn tab_view_ref(t: &Table) -> &Inner {
    &t.0
}
pub fn tab_change(t: &mut Table) -> &mut Inner {
    t
}
pub fn tab_change_ref(t: &mut Table) -> &mut Inner {
    &mut t.0
}
pub fn tab_list(t: &Table) -> Vec<(&String, &u32)> {
    t.into_iter().collect()
}
pub fn tab_list_ref(t: &Table) -> Vec<(&String, &u32)> {
    t.0.iter().collect()
}
pub fn tab_each(t: &mut Table) -> Vec<(&String, &mut u32)> {
    t.into_iter().collect()
}
pub fn tab_each_ref(t: &mut Table) -> Vec<(&String, &mut u32)> {
    t.0.iter_mut().collect()
}

// identifiers
pub fn guid_parse(s: &str) -> Result<Guid, gvas::types::ParseGuidError> {
    s.parse()
}
pub fn guid_display(g: &Guid, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(g, f)
}
pub fn guid_from_u8(v: [u8; 16]) -> Guid {
    Guid::from_u8(v)
}
pub fn guid_to_u8(g: &Guid) -> [u8; 16] {
    g.to_u8()
}
pub fn guid_from_u32(v: [u32; 4]) -> Guid {
    Guid::from_u32(v)
}
pub fn guid_to_u32(g: &Guid) -> [u32; 4] {
    g.to_u32()
}
pub fn guid_from_u128(v: u128) -> Guid {
    Guid::from_u128(v)
}
pub fn guid_to_u128(g: &Guid) -> u128 {
    g.to_u128()
}
pub fn guid_into_from_u32(v: [u32; 4]) -> Guid {
    v.into()
}
pub fn guid_into_u32(g: Guid) -> [u32; 4] {
    g.into()
}
pub fn guid_into_from_u128(v: u128) -> Guid {
    v.into()
}
pub fn guid_into_u128(g: Guid) -> u128 {
    g.into()
}
pub fn guid_is_zero(g: &Guid) -> bool {
    g.is_zero()
}

// comparisons and hashes of everything that has them
fn hash_of<T: std::hash::Hash>(t: &T, h: &mut H) {
    t.hash(h)
}
pub struct H(u8);
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        unimplemented!()
    }
    fn write(&mut self, _: &[u8]) {
        unimplemented!()
    }
}
pub fn property_eq(a: &Property, b: &Property) -> bool {
    a == b
}
pub fn property_hash(a: &Property, h: &mut H) {
    hash_of(a, h)
}
pub fn file_eq(a: &GvasFile, b: &GvasFile) -> bool {
    a == b
}
pub fn property_clone(a: &Property) -> Property {
    a.clone()
}

// examples of what the determinism check must report
pub mod controls {
    use std::cell::Cell;
    use std::collections::HashMap;
    use std::sync::OnceLock;
    use std::sync::atomic::{AtomicUsize, Ordering};

    static COUNT: AtomicUsize = AtomicUsize::new(0);
    static FIRST: OnceLock<usize> = OnceLock::new();
    thread_local! {
        static DEPTH: Cell<usize> = const { Cell::new(0) };
    }
    pub fn control_env() -> bool {
        std::env::var_os("X").is_some()
    }
    pub fn control_clock() -> std::time::Instant {
        std::time::Instant::now()
    }
    pub fn control_static() -> usize {
        COUNT.fetch_add(1, Ordering::Relaxed)
    }
    pub fn control_once(n: usize) -> usize {
        *FIRST.get_or_init(|| n)
    }
    pub fn control_thread() -> usize {
        DEPTH.with(|d| d.replace(1))
    }
    pub fn control_order(m: &HashMap<u8, u8>) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend(m.values().copied());
        v
    }
    pub fn control_order_for(m: HashMap<u8, u8>) -> Option<u8> {
        for (k, _) in m {
            return Some(k);
        }
        None
    }
    pub fn control_address(v: &u8) -> usize {
        v as *const u8 as usize
    }
}
