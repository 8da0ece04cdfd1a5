//! The messages of the protocols, written and read without their code: the pieces molecule's
//! and flatbuffers' formats consist of.
#![allow(dead_code)]
pub fn u32s(n: usize) -> Vec<u8> {
    (n as u32).to_le_bytes().to_vec()
}

/// a table of these fields; also a vector of items of different sizes
pub fn table(fields: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 + 4 * fields.len();
    let total: usize = head + fields.iter().map(|f| f.len()).sum::<usize>();
    let mut v = u32s(total);
    let mut at = head;
    for f in fields {
        v.extend(u32s(at));
        at += f.len();
    }
    for f in fields {
        v.extend_from_slice(f)
    }
    v
}

pub fn union(item: usize, of: Vec<u8>) -> Vec<u8> {
    let mut v = u32s(item);
    v.extend(of);
    v
}

/// bytes with their number
pub fn bytes(b: &[u8]) -> Vec<u8> {
    let mut v = u32s(b.len());
    v.extend_from_slice(b);
    v
}

fn num(b: &[u8], at: usize) -> Option<usize> {
    let mut n = [0; 4];
    n.copy_from_slice(b.get(at..at + 4)?);
    Some(u32::from_le_bytes(n) as usize)
}

pub fn un_u32(b: &[u8]) -> Option<u32> {
    if b.len() != 4 {
        return None;
    }
    num(b, 0).map(|n| n as u32)
}

pub fn un_table(b: &[u8]) -> Option<Vec<&[u8]>> {
    if num(b, 0)? != b.len() {
        return None;
    }
    if b.len() == 4 {
        return Some(Vec::new());
    }
    let n = (num(b, 4)? / 4).checked_sub(1)?;
    let mut at = Vec::new();
    for i in 0..n {
        at.push(num(b, 4 + 4 * i)?)
    }
    at.push(b.len());
    at.windows(2).map(|w| b.get(w[0]..w[1])).collect()
}

pub fn un_union(b: &[u8]) -> Option<(usize, &[u8])> {
    Some((num(b, 0)?, b.get(4..)?))
}

pub fn un_bytes(b: &[u8]) -> Option<&[u8]> {
    if num(b, 0)? + 4 != b.len() {
        return None;
    }
    b.get(4..)
}

/// flatbuffers: tables whose fields are numbers, other tables, bytes and vectors of tables
#[cfg(feature = "flatc")]
pub mod flat {
    pub use flatbuffers::Table;
    use flatbuffers::{
        FlatBufferBuilder, ForwardsUOffset, TableFinishedWIPOffset, Vector, WIPOffset,
    };

    pub enum F {
        None,
        U8(u8),
        U16(u16),
        U32(u32),
        Bytes(Vec<u8>),
        T(Vec<F>),
        V(Vec<Vec<F>>),
    }

    enum G {
        U8(u8),
        U16(u16),
        U32(u32),
        Off(WIPOffset<flatbuffers::UnionWIPOffset>),
        None,
    }

    fn put(b: &mut FlatBufferBuilder, t: &[F]) -> WIPOffset<TableFinishedWIPOffset> {
        let mut g = Vec::new();
        for f in t {
            g.push(match f {
                F::None => G::None,
                F::U8(x) => G::U8(*x),
                F::U16(x) => G::U16(*x),
                F::U32(x) => G::U32(*x),
                F::Bytes(v) => G::Off(b.create_vector(v).as_union_value()),
                F::T(t) => G::Off(put(b, t).as_union_value()),
                F::V(v) => {
                    let mut o = Vec::new();
                    for t in v {
                        o.push(put(b, t))
                    }
                    G::Off(b.create_vector(&o).as_union_value())
                }
            })
        }
        let start = b.start_table();
        for (i, g) in g.into_iter().enumerate() {
            let at = 4 + 2 * i as i16;
            match g {
                G::None => (),
                G::U8(x) => b.push_slot_always(at, x),
                G::U16(x) => b.push_slot_always(at, x),
                G::U32(x) => b.push_slot_always(at, x),
                G::Off(x) => b.push_slot_always(at, x),
            }
        }
        b.end_table(start)
    }

    pub fn write(t: &[F]) -> Vec<u8> {
        let mut b = FlatBufferBuilder::new();
        let root = put(&mut b, t);
        b.finish(root, None);
        b.finished_data().to_vec()
    }

    pub fn root(b: &[u8]) -> Option<Table> {
        if b.len() < 8 {
            return None;
        }
        Some(flatbuffers::get_root::<Table>(b))
    }
    pub fn u8_at(t: &Table, i: i16) -> u8 {
        t.get::<u8>(4 + 2 * i, Some(0)).unwrap()
    }
    pub fn u16_at(t: &Table, i: i16) -> u16 {
        t.get::<u16>(4 + 2 * i, Some(0)).unwrap()
    }
    pub fn u32_at(t: &Table, i: i16) -> u32 {
        t.get::<u32>(4 + 2 * i, Some(0)).unwrap()
    }
    pub fn table_at<'a>(t: &Table<'a>, i: i16) -> Option<Table<'a>> {
        t.get::<ForwardsUOffset<Table<'a>>>(4 + 2 * i, None)
    }
    pub fn bytes_at(t: &Table, i: i16) -> Option<Vec<u8>> {
        t.get::<ForwardsUOffset<Vector<u8>>>(4 + 2 * i, None)
            .map(|v| (0..v.len()).map(|i| v.get(i)).collect())
    }
    pub fn tables_at<'a>(t: &Table<'a>, i: i16) -> Option<Vec<Table<'a>>> {
        t.get::<ForwardsUOffset<Vector<ForwardsUOffset<Table<'a>>>>>(4 + 2 * i, None)
            .map(|v| (0..v.len()).map(|i| v.get(i)).collect())
    }
}
