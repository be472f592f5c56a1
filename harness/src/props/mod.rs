//! The checks, one case function per property.

use crate::conv::Hints;
use crate::r#gen::Case;
use crate::model::*;
use crate::runner::{Ctx, Probe, Prop};

pub mod agree;
pub mod basic;
pub mod codec;
pub mod edit;
pub mod edited;
pub mod format;
pub mod io;
pub mod more;
pub mod palworld;
pub mod robust;
pub mod shape;
pub mod values;

pub static ALL: &[Prop] = &[
    Prop {
        id: "C01", case: basic::c01, quick: 120_000, thorough: 2_500_000, level: "exploration",
        rule: "the file holds at least three values and at least one container or text",
        assumptions: NEST, probes: &[Probe { id: "repeated-name", run: basic::repeated_read }],
    },
    Prop {
        id: "C02", case: basic::c02, quick: 120_000, thorough: 2_500_000, level: "exploration",
        rule: "the file holds at least three values and at least one container or text",
        assumptions: NEST, probes: &[Probe { id: "repeated-name", run: basic::repeated_save }],
    },
    Prop {
        id: "C03", case: basic::c03, quick: 100_000, thorough: 2_000_000, level: "exploration",
        rule: "the built value holds at least three values, or is a text or container written on its own",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C04", case: basic::c04, quick: 80_000, thorough: 1_500_000, level: "exploration",
        rule: "at least two strings use the other encoding, or bytes follow the end marker of a file with values",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C05", case: robust::c05, quick: 500_000, thorough: 3_000_000, level: "exploration",
        rule: "a file with properties that is damaged, nested deeply or followed by arbitrary bytes; or a damaged header, property, text, GUID text or JSON text",
        assumptions: &["threads have a stack of 2 MiB, the default of the standard library", "a thread that holds 1 GiB for one case of at most a few megabytes counts as crashed"],
        probes: &[],
    },
    Prop {
        id: "C06", case: robust::c06, quick: 250_000, thorough: 2_000_000, level: "exploration",
        rule: "a file with properties in which a count, length or size was changed, or a container that expands beyond what it declares",
        assumptions: &["memory is what the reading thread requests from the allocator"], probes: &[],
    },
    Prop {
        id: "C07", case: robust::c07, quick: 20_000, thorough: 400_000, level: "fault_enumeration",
        rule: "a file with at least one property, a header with a version table, or a property on its own; every cut point for data up to 500 bytes",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C08", case: robust::c08, quick: 120_000, thorough: 1_000_000, level: "exploration",
        rule: "the file has at least one property with a declared size",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C09", case: robust::c09, quick: 120_000, thorough: 1_500_000, level: "exploration",
        rule: "the file has at least one property and at least one damaged form was judged by the reference decoder",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C10", case: format::c10, quick: 200_000, thorough: 4_000_000, level: "exploration",
        rule: "the header is unsupported in at least one field, or has a version table",
        assumptions: &["a header outside the supported ranges is followed by enough bytes"], probes: &[],
    },
    Prop {
        id: "C11", case: format::c11, quick: 300_000, thorough: 2_000_000, level: "exploration",
        rule: "the stored bytes or the storability of the properties depend on at least one threshold",
        assumptions: &["each version appears once in the table"], probes: &[],
    },
    Prop {
        id: "C12", case: format::c12, quick: 60_000, thorough: 1_000_000, level: "exploration",
        rule: "the unstorable value lies inside another value or beside other properties",
        assumptions: &["the kinds of unstorable values are those named in the statement"], probes: &[],
    },
    Prop {
        id: "C13", case: format::c13, quick: 120_000, thorough: 1_000_000, level: "exploration",
        rule: "a file that needs hints for at least two paths, or a property on its own that needs one",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C14", case: palworld::c14, quick: 25_000, thorough: 200_000, level: "exploration",
        rule: "the contents hold at least three values and at least one container or text",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C15", case: io::c15, quick: 40_000, thorough: 200_000, level: "fault_enumeration",
        rule: "a file with properties, a header, property or text of its own; a fault at every byte of outputs up to 160 bytes, at the ends and 40 sampled bytes of longer ones",
        assumptions: &["the device reports its fault from a write call; interruptions are not faults"], probes: &[],
    },
    Prop {
        id: "C16", case: io::c16, quick: 100_000, thorough: 200_000, level: "fault_enumeration",
        rule: "a file with properties, a header, property or text of its own; a fault at every byte of inputs up to 160 bytes, at the ends and 40 sampled bytes of longer ones, and at each of the first twelve position queries",
        assumptions: &["the device reports its fault from a read or seek call; interruptions are not faults"], probes: &[],
    },
    Prop {
        id: "C17", case: codec::c17, quick: 400_000, thorough: 8_000_000, level: "exploration",
        rule: "a non-empty string, a stored form of a string, a GUID, an enum byte or a boolean word",
        assumptions: &[], probes: &[],
    },
    Prop {
        id: "C18", case: codec::c18, quick: 1_000_000, thorough: 10_000_000, level: "exploration",
        rule: "every case converts one GUID through all forms and parses one generated text; distinct pairs count",
        assumptions: &["hyphens in unusual places, unbalanced braces and blanks within the braces may be accepted or refused, but not misread"], probes: &[],
    },
    Prop {
        id: "C19", case: values::c19, quick: 200_000, thorough: 1_000_000, level: "exploration",
        rule: "a file with at least three values and at least one container or text, or a property, header or text of its own",
        assumptions: &["floats are finite", "nesting is generated up to five levels"], probes: &[],
    },
    Prop {
        id: "C20", case: values::c20, quick: 500_000, thorough: 8_000_000, level: "exploration",
        rule: "the container has at least one element",
        assumptions: &["the keys of a map differ from each other"], probes: &[],
    },
    Prop {
        id: "C21", case: values::c21, quick: 2_000_000, thorough: 30_000_000, level: "exploration",
        rule: "the two values were built differently: entries in another order, other bits of the same float, or a change in one place",
        assumptions: &["both values use the form their constructors choose"], probes: &[],
    },
    Prop {
        id: "C22", case: edit::c22, quick: 400_000, thorough: 5_000_000, level: "exploration",
        rule: "the history has at least one edit and ends with a save and a reload; distinct histories count",
        assumptions: &["edits keep the file storable: names stay unique, elements keep the type of their container"], probes: &[],
    },
    Prop {
        id: "C23", case: edit::c23, quick: 200_000, thorough: 2_000_000, level: "exploration",
        rule: "at least one property or element of an unknown type was placed in the file",
        assumptions: &["elements of an unknown type in one container have one size, at least one byte"], probes: &[],
    },
    Prop {
        id: "C24", case: values::c24, quick: 100_000, thorough: 1_500_000, level: "exploration",
        rule: "a file with at least three values and at least one container or text, or a property, header, text or string of its own",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C25", case: values::c25, quick: 2_000_000, thorough: 30_000_000, level: "exploration",
        rule: "every case holds generated values for all accessors or conversions it tries; distinct values count",
        assumptions: &["engine releases after 5.2 may be named by their own number or be unknown"], probes: &[],
    },
    Prop {
        id: "C26", case: format::c26, quick: 120_000, thorough: 1_000_000, level: "exploration",
        rule: "a file with properties, or a property on its own, in which at least one field was damaged so that exactly one kind of error fits",
        assumptions: &["sizes that decide how bytes and unknown elements are read are left out, their damage may surface elsewhere", "inner sizes of struct arrays and counts are left out, they have no error kind of their own"],
        probes: &[],
    },
    Prop {
        id: "C27", case: edit::c27, quick: 150_000, thorough: 2_000_000, level: "exploration",
        rule: "at least two inputs are read in one history",
        assumptions: &["the order in which threads run is left to the system; one read inside another is placed at a chosen call"], probes: &[],
    },
    Prop {
        id: "C28", case: palworld::c28, quick: 80_000, thorough: 400_000, level: "exploration",
        rule: "the file has at least one property; up to 24 damages per file",
        assumptions: &["checksums of 32 bits are taken to detect every damage"], probes: &[],
    },
    Prop {
        id: "C29", case: agree::c29, quick: 200_000, thorough: 2_500_000, level: "exploration",
        rule: "the property has a reader of its own type or is written as well as the value in it; or a file with at least one property",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C30", case: agree::c30, quick: 100_000, thorough: 1_500_000, level: "exploration",
        rule: "at least two saves go into the same destination and the file has a property",
        assumptions: NEST, probes: &[],
    },
    Prop {
        id: "C31", case: agree::c31, quick: 200_000, thorough: 2_000_000, level: "exploration",
        rule: "a file with properties in which a count, length or size was changed, or a container that expands beyond what it declares",
        assumptions: &["work is counted as calls to the source and requests to the allocator; time is not measured"], probes: &[],
    },
    Prop {
        id: "C32", case: more::c32, quick: 500_000, thorough: 2_000_000, level: "exploration",
        rule: "two values or files that differ, a struct of numbers or an engine version",
        assumptions: &["values that are equal but built differently may print alike or not"], probes: &[],
    },
    Prop {
        id: "C33", case: more::c33, quick: 300_000, thorough: 2_000_000, level: "exploration",
        rule: "the JSON text read differs from the one gvas wrote",
        assumptions: &["floats are finite", "values from trees are counted only with reformatted text"], probes: &[],
    },
    Prop {
        id: "C34", case: more::c34, quick: 200_000, thorough: 2_000_000, level: "exploration",
        rule: "a file with properties, damaged or not, or a header, property, text, number format, string or GUID text of its own",
        assumptions: &["the two builds: with serde, overflow checks and debug assertions at optimisation level 2; without all of them at level 3"], probes: &[],
    },
    Prop {
        id: "C35", case: shape::c35, quick: 1_000_000, thorough: 8_000_000, level: "exploration",
        rule: "every case compares one document; distinct documents count",
        assumptions: &["floats are finite"], probes: &[],
    },
    Prop {
        id: "C36", case: agree::c36, quick: 1_000_000, thorough: 2_000_000, level: "exploration",
        rule: "more than 2000 bytes of output, or nested so that bytes lie in two sized properties on average",
        assumptions: &["work is counted as requests to the allocator and calls to the destination"], probes: &[],
    },
    Prop {
        id: "C37", case: more::c37, quick: 3_000, thorough: 40_000, level: "exploration",
        rule: "a file with properties, damaged or not, or a header, property, text, number format, string or GUID text of its own",
        assumptions: &["undefined behaviour is what Miri reports under Tree Borrows"], probes: &[],
    },
    Prop {
        id: "C38", case: more::c38, quick: 6_000, thorough: 60_000, level: "exploration",
        rule: "a file with properties, damaged or not, or a header, property, text, number format, string or GUID text of its own",
        assumptions: &["the other machine is powerpc (32 bits, big endian) as interpreted by Miri"], probes: &[],
    },
    Prop {
        id: "C39", case: edited::c39, quick: 1_500_000, thorough: 15_000_000, level: "exploration",
        rule: "the edited document is accepted and is another value than the one it was made from",
        assumptions: &["hints that no longer fit the edited document are not held against the library"], probes: &[],
    },
];

const NEST: &[&str] = &[
    "nesting is generated up to fifty levels for structs through fields and struct arrays and for texts in texts, up to five levels otherwise",
    "names repeat only where the format permits them (fields of a struct, next to each other)",
];

/// Labels every kind of value in the file and says whether the file is non-trivial.
pub fn classify(f: &MFile, ctx: &mut Ctx) -> bool {
    let mut n = 0;
    let mut rich = false;
    let mut kinds = std::collections::BTreeSet::new();
    f.walk(&mut |v| {
        n += 1;
        rich |= v.is_container() || matches!(v, MVal::Text(_));
        kinds.insert(match v {
            MVal::Unknown { .. } => "unknown",
            MVal::StructVal(_) => "StructValue",
            MVal::ByteNs { .. } => "ByteProperty as name",
            v => SCALARS.iter().chain(["StructProperty", "ArrayProperty", "SetProperty", "MapProperty"].iter()).find(|t| **t == v.type_name()).copied().unwrap_or("?"),
        });
    });
    for k in kinds {
        ctx.label(k);
    }
    if let Some(c) = f.pal {
        ctx.label(format!("Palworld {c}"));
    }
    ctx.label(if f.header.ue5.is_some() { "header 3" } else { "header 2" });
    n >= 3 && rich
}

pub fn show(c: &Case) -> String {
    let mut hints: Vec<_> = c.hints.iter().collect();
    hints.sort();
    format!("{:?}\nhints {:?}", c.file, hints)
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(4000).map(|x| format!("{x:02x}")).collect();
    if b.len() > 4000 {
        s.push('…');
    }
    s
}

/// Where two byte strings differ first.
pub fn diff(want: &[u8], got: &[u8]) -> String {
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let lo = at.saturating_sub(8);
    format!(
        "first difference at byte {at} (lengths {} and {}): expected …{} got …{}",
        want.len(), got.len(),
        hex(&want[lo.min(want.len())..(at + 16).min(want.len())]),
        hex(&got[lo.min(got.len())..(at + 16).min(got.len())])
    )
}

pub fn no_hints() -> Hints {
    Hints::new()
}
