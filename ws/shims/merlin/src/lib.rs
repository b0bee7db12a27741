//! Stand-in for the `merlin` crate (not available offline): transcripts over
//! STROBE-128 as specified at merlin.cool.
const R: u8 = 166;
const FLAG_I: u8 = 1;
const FLAG_A: u8 = 1 << 1;
const FLAG_C: u8 = 1 << 2;
const FLAG_T: u8 = 1 << 3;
const FLAG_M: u8 = 1 << 4;
const FLAG_K: u8 = 1 << 5;

#[derive(Clone)]
struct Strobe128 {
    state: [u8; 200],
    pos: u8,
    pos_begin: u8,
    cur_flags: u8,
}

fn f1600(st: &mut [u8; 200]) {
    let mut a = [0u64; 25];
    for i in 0..25 {
        a[i] = u64::from_le_bytes(st[8 * i..8 * i + 8].try_into().unwrap());
    }
    sha3::keccak_f1600(&mut a);
    for i in 0..25 {
        st[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
}

impl Strobe128 {
    fn new(protocol_label: &[u8]) -> Self {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, R + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        f1600(&mut st);
        let mut s = Strobe128 { state: st, pos: 0, pos_begin: 0, cur_flags: 0 };
        s.meta_ad(protocol_label, false);
        s
    }
    fn meta_ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_M | FLAG_A, more);
        self.absorb(data);
    }
    fn ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_A, more);
        self.absorb(data);
    }
    fn prf(&mut self, data: &mut [u8], more: bool) {
        self.begin_op(FLAG_I | FLAG_A | FLAG_C, more);
        for b in data {
            *b = self.state[self.pos as usize];
            self.state[self.pos as usize] = 0;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn run_f(&mut self) {
        self.state[self.pos as usize] ^= self.pos_begin;
        self.state[self.pos as usize + 1] ^= 0x04;
        self.state[R as usize + 1] ^= 0x80;
        f1600(&mut self.state);
        self.pos = 0;
        self.pos_begin = 0;
    }
    fn absorb(&mut self, data: &[u8]) {
        for b in data {
            self.state[self.pos as usize] ^= b;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn begin_op(&mut self, flags: u8, more: bool) {
        if more {
            assert_eq!(self.cur_flags, flags);
            return;
        }
        assert_eq!(flags & FLAG_T, 0);
        let old_begin = self.pos_begin;
        self.pos_begin = self.pos + 1;
        self.cur_flags = flags;
        self.absorb(&[old_begin, flags]);
        let force_f = 0 != (flags & (FLAG_C | FLAG_K));
        if force_f && self.pos != 0 {
            self.run_f();
        }
    }
}

/// A transcript of a public-coin argument.
#[derive(Clone)]
pub struct Transcript(Strobe128);

impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript(Strobe128::new(b"Merlin v1.0"));
        t.append_message(b"dom-sep", label);
        t
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        let len = (message.len() as u32).to_le_bytes();
        self.0.meta_ad(label, false);
        self.0.meta_ad(&len, true);
        self.0.ad(message, false);
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        let len = (dest.len() as u32).to_le_bytes();
        self.0.meta_ad(label, false);
        self.0.meta_ad(&len, true);
        self.0.prf(dest, false);
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn upstream_vector() {
        let mut t = super::Transcript::new(b"test protocol");
        t.append_message(b"some label", b"some data");
        let mut c = [0u8; 32];
        t.challenge_bytes(b"challenge", &mut c);
        assert_eq!(
            hex::encode(c),
            "d5a21972d0d5fe320c0d263fac7fffb8145aa640af6e9bca177c03c7efcf0615"
        );
    }
}
