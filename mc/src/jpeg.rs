//! Strict, independent JPEG (ITU-T T.81) parser and entropy decoder.
//!
//! It shares no code with the encoder under test.  It accepts exactly the
//! streams a conforming baseline / extended sequential / progressive
//! (spectral selection only) Huffman decoder must accept and rejects
//! everything a strict reading of the standard forbids.  Besides the quantised
//! coefficients it records the abstract trace of the coder: scans, restart
//! markers with the MCU index they appear at, symbol histograms, and which
//! coder states (scan kind, bit phase, restart position) were visited.

pub const ZZ: [u8; 64] = [
    // zigzag index -> natural (row major) index, generated from the rule in T.81 Figure 5
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

/// Recomputes the zigzag order from its definition; `ZZ` is asserted against it at start-up.
pub fn zigzag_by_rule() -> [u8; 64] {
    let mut out = [0u8; 64];
    let (mut x, mut y) = (0i32, 0i32);
    for o in out.iter_mut() {
        *o = (y * 8 + x) as u8;
        if (x + y) % 2 == 0 {
            if x == 7 {
                y += 1
            } else if y == 0 {
                x += 1
            } else {
                x += 1;
                y -= 1
            }
        } else if y == 7 {
            x += 1
        } else if x == 0 {
            y += 1
        } else {
            x -= 1;
            y += 1
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Segment {
    pub marker: u8,
    pub data: Vec<u8>,
    pub pos: usize,
}

#[derive(Clone)]
pub struct Huff {
    pub counts: [u8; 16],
    pub values: Vec<u8>,
    maxcode: [i32; 18],
    delta: [i32; 17],
    /// code length per symbol, 0 if the symbol has no code
    pub len: [u8; 256],
}

impl Huff {
    pub fn build(counts: &[u8; 16], values: &[u8]) -> Result<Huff, String> {
        let mut len = [0u8; 256];
        let mut maxcode = [-1i32; 18];
        let mut delta = [0i32; 17];
        let mut code = 0i32;
        let mut k = 0usize;
        for l in 1..=16usize {
            let n = counts[l - 1] as i32;
            if n > 0 {
                delta[l] = k as i32 - code;
                for i in 0..n {
                    let v = values[k + i as usize];
                    if len[v as usize] != 0 {
                        return Err(format!("DHT: symbol {:#04x} appears twice", v));
                    }
                    len[v as usize] = l as u8;
                }
                code += n;
                k += n as usize;
                if code > (1 << l) - 1 {
                    return Err(format!(
                        "DHT: code of length {} is all ones or the code is over-subscribed",
                        l
                    ));
                }
                maxcode[l] = code - 1;
            }
            code <<= 1;
        }
        maxcode[17] = i32::MAX;
        Ok(Huff { counts: *counts, values: values.to_vec(), maxcode, delta, len })
    }
}

#[derive(Clone)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8,
    /// blocks that contain at least one sample of the component (non-interleaved scan size)
    pub bw: usize,
    pub bh: usize,
    /// blocks including MCU padding (interleaved scan size)
    pub gw: usize,
    pub gh: usize,
    /// quantised coefficients in zigzag order, grid of gw x gh
    pub coefs: Vec<[i16; 64]>,
    pub sent: [bool; 64],
    pub qt: Option<[u8; 64]>,
}

#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: u8,
    pub se: u8,
    pub ah: u8,
    pub al: u8,
    pub td: Vec<u8>,
    pub ta: Vec<u8>,
    pub mcus: usize,
    /// restart interval in force
    pub dri: usize,
    /// restart markers: (marker number, MCU index it precedes)
    pub rst_count: usize,
    /// Huffman symbol counts coded in this scan, indexed by table id for [dc][ac]
    pub bits: u64,
}

pub struct Stream {
    pub segments: Vec<Segment>,
    pub sof: u8,
    pub width: u16,
    pub height: u16,
    pub precision: u8,
    pub comps: Vec<Comp>,
    pub scans: Vec<Scan>,
    pub dri: Vec<u16>,
    /// tables as of the end of the stream
    pub huff: [[Option<Huff>; 4]; 2],
    /// number of DHT definitions per class and id
    pub huff_defs: [[u32; 4]; 2],
    pub qts: [Option<[u8; 64]>; 4],
    pub hist: Box<[[[u32; 256]; 4]; 2]>,
    pub total_rst: usize,
    pub total_mcus: usize,
}

pub const STATE_BITS: usize = 3 * 4 * 64 * 9 * 16;
pub const SYM_BITS: usize = 2 * 256 * 64;

/// Abstract coder states and (symbol, bit phase) pairs visited.
#[derive(Clone)]
pub struct Cov {
    pub states: Vec<u64>,
    pub syms: Vec<u64>,
    /// which bytes of each 8 bytes of a segment (of the last 1..7: index / 256) are 0xFF
    pub words: Vec<u64>,
    /// histogram classes: distinct code-length vectors
    pub steps: u64,
}
impl Default for Cov {
    fn default() -> Self {
        Cov { states: vec![0; STATE_BITS / 64], syms: vec![0; SYM_BITS / 64], words: vec![0; 32], steps: 0 }
    }
}
impl Cov {
    #[inline]
    fn state(&mut self, kind: usize, nc: usize, phase: usize, rst: usize, togo: usize) {
        let i = (((kind * 4 + (nc - 1)) * 64 + phase) * 9 + rst) * 16 + togo.min(15);
        self.states[i >> 6] |= 1 << (i & 63);
        self.steps += 1;
    }
    #[inline]
    fn sym(&mut self, class: usize, sym: u8, phase: usize) {
        let i = (class * 256 + sym as usize) * 64 + phase;
        self.syms[i >> 6] |= 1 << (i & 63);
    }
    pub fn merge(&mut self, o: &Cov) {
        for (a, b) in self.states.iter_mut().zip(&o.states) {
            *a |= b
        }
        for (a, b) in self.syms.iter_mut().zip(&o.syms) {
            *a |= b
        }
        for (a, b) in self.words.iter_mut().zip(&o.words) {
            *a |= b
        }
        self.steps += o.steps;
    }
    /// distinct patterns of 0xFF bytes in whole words of 8 bytes, and in the words that end a segment
    pub fn n_words(&self) -> (u64, u64) {
        let n = |v: &[u64]| v.iter().map(|x| x.count_ones() as u64).sum();
        (n(&self.words[..4]), n(&self.words[4..]))
    }
    pub fn n_states(&self) -> u64 {
        self.states.iter().map(|x| x.count_ones() as u64).sum()
    }
    pub fn n_syms(&self) -> u64 {
        self.syms.iter().map(|x| x.count_ones() as u64).sum()
    }
    pub fn has_sym(&self, class: usize, sym: u8, phase: usize) -> bool {
        let i = (class * 256 + sym as usize) * 64 + phase;
        self.syms[i >> 6] >> (i & 63) & 1 == 1
    }
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    acc: u64,
    n: u32,
    used: u64,
    /// bytes of the current word, and which of them are 0xFF
    word: (u32, u32),
    words: [u64; 32],
}

impl<'a> Bits<'a> {
    fn end_word(&mut self) {
        let i = ((self.word.0 & 7) << 8 | self.word.1) as usize;
        self.words[i >> 6] |= 1 << (i & 63);
        self.word = (0, 0);
    }
    #[inline]
    fn fill(&mut self) {
        while self.n <= 48 {
            if self.pos >= self.d.len() {
                return;
            }
            let b = self.d[self.pos];
            if b == 0xFF {
                if self.pos + 1 < self.d.len() && self.d[self.pos + 1] == 0 {
                    self.pos += 2;
                } else {
                    return;
                }
            } else {
                self.pos += 1;
            }
            self.acc = (self.acc << 8) | b as u64;
            self.n += 8;
            self.word.1 |= ((b == 0xFF) as u32) << self.word.0;
            self.word.0 += 1;
            if self.word.0 == 8 {
                self.end_word();
            }
        }
    }
    #[inline]
    fn peek16(&mut self) -> u32 {
        if self.n < 32 {
            self.fill();
        }
        if self.n >= 16 {
            ((self.acc >> (self.n - 16)) & 0xFFFF) as u32
        } else {
            // missing bits read as zero; consumption is checked separately
            ((self.acc << (16 - self.n)) & 0xFFFF) as u32
        }
    }
    #[inline]
    fn take(&mut self, k: u32) -> Result<u32, String> {
        if self.n < k {
            self.fill();
            if self.n < k {
                return Err("entropy-coded data ends early".into());
            }
        }
        self.n -= k;
        self.used += k as u64;
        Ok(((self.acc >> self.n) & ((1u64 << k) - 1)) as u32)
    }
    #[inline]
    fn symbol(&mut self, h: &Huff) -> Result<u8, String> {
        let v = self.peek16() as i32;
        let mut l = 1usize;
        while (v >> (16 - l)) > h.maxcode[l] {
            l += 1;
            if l > 16 {
                return Err("undefined Huffman code in entropy-coded data".into());
            }
        }
        let c = v >> (16 - l);
        if self.n < l as u32 {
            return Err("entropy-coded data ends inside a Huffman code".into());
        }
        self.n -= l as u32;
        self.used += l as u64;
        Ok(h.values[(c + h.delta[l]) as usize])
    }
    #[inline]
    fn extend(&mut self, s: u32) -> Result<i32, String> {
        if s == 0 {
            return Ok(0);
        }
        let v = self.take(s)? as i32;
        Ok(if v < (1 << (s - 1)) { v - (1 << s) + 1 } else { v })
    }
    /// End of an entropy-coded segment: only 0..7 one bits may remain, then a marker.
    fn end_segment(&mut self) -> Result<(), String> {
        self.fill();
        if self.n >= 8 {
            return Err(format!("superfluous entropy-coded data ({} bits left)", self.n));
        }
        if self.pos < self.d.len() && self.d[self.pos] != 0xFF {
            return Err("superfluous entropy-coded data before a marker".into());
        }
        let m = (1u64 << self.n) - 1;
        if self.acc & m != m {
            return Err("padding bits before a marker are not all ones".into());
        }
        self.acc = 0;
        self.n = 0;
        self.used = 0;
        if self.word.0 > 0 {
            self.end_word();
        }
        Ok(())
    }
}

fn ceil_div(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

/// Parses and fully decodes a stream.  `cov` accumulates visited coder states.
pub fn parse(d: &[u8], cov: &mut Cov) -> Result<Stream, String> {
    let mut s = Stream {
        segments: Vec::new(),
        sof: 0,
        width: 0,
        height: 0,
        precision: 0,
        comps: Vec::new(),
        scans: Vec::new(),
        dri: Vec::new(),
        huff: Default::default(),
        huff_defs: Default::default(),
        qts: [None; 4],
        hist: Box::new([[[0; 256]; 4]; 2]),
        total_rst: 0,
        total_mcus: 0,
    };
    let mut pos = 0usize;
    let be16 = |p: usize| -> Result<usize, String> {
        if p + 2 > d.len() {
            Err("stream truncated".to_string())
        } else {
            Ok((d[p] as usize) << 8 | d[p + 1] as usize)
        }
    };
    if d.len() < 2 || d[0] != 0xFF || d[1] != 0xD8 {
        return Err("stream does not start with SOI".into());
    }
    pos += 2;
    let mut restart_interval = 0usize;
    loop {
        if pos >= d.len() {
            return Err("stream ends without EOI".into());
        }
        if d[pos] != 0xFF {
            return Err(format!("expected a marker at byte {}, found {:#04x}", pos, d[pos]));
        }
        while pos < d.len() && d[pos] == 0xFF {
            pos += 1;
        }
        if pos >= d.len() {
            return Err("stream ends without EOI".into());
        }
        let m = d[pos];
        pos += 1;
        match m {
            0xD9 => {
                if pos != d.len() {
                    return Err(format!("{} bytes after EOI", d.len() - pos));
                }
                break;
            }
            0xD8 => return Err("second SOI".into()),
            0xD0..=0xD7 => return Err(format!("restart marker RST{} outside a scan", m - 0xD0)),
            0x00 | 0x01 | 0x02..=0xBF => return Err(format!("invalid marker {:#04x}", m)),
            _ => {}
        }
        let len = be16(pos)?;
        if len < 2 || pos + len > d.len() {
            return Err(format!("segment {:#04x} has bad length {}", m, len));
        }
        let p = &d[pos + 2..pos + len];
        s.segments.push(Segment { marker: m, data: p.to_vec(), pos: pos - 2 });
        pos += len;
        match m {
            0xE0..=0xEF | 0xFE => {
                if s.sof != 0 && m != 0xFE && !s.scans.is_empty() {
                    // allowed by T.81 between scans; nothing to check
                }
            }
            0xDB => {
                let mut q = 0;
                if p.is_empty() {
                    return Err("empty DQT".into());
                }
                while q < p.len() {
                    let (pq, tq) = (p[q] >> 4, (p[q] & 15) as usize);
                    if pq != 0 {
                        return Err("DQT: 16-bit table not allowed with 8-bit samples".into());
                    }
                    if tq > 3 {
                        return Err(format!("DQT: bad table id {}", tq));
                    }
                    if q + 65 > p.len() {
                        return Err("DQT: bad segment length".into());
                    }
                    let mut t = [0u8; 64];
                    t.copy_from_slice(&p[q + 1..q + 65]);
                    if t.contains(&0) {
                        return Err(format!("DQT: table {} contains zero", tq));
                    }
                    s.qts[tq] = Some(t);
                    q += 65;
                }
            }
            0xC4 => {
                let mut q = 0;
                if p.is_empty() {
                    return Err("empty DHT".into());
                }
                while q < p.len() {
                    if q + 17 > p.len() {
                        return Err("DHT: bad segment length".into());
                    }
                    let (tc, th) = ((p[q] >> 4) as usize, (p[q] & 15) as usize);
                    if tc > 1 || th > 3 {
                        return Err(format!("DHT: bad class/id {:#04x}", p[q]));
                    }
                    let mut counts = [0u8; 16];
                    counts.copy_from_slice(&p[q + 1..q + 17]);
                    let n: usize = counts.iter().map(|&c| c as usize).sum();
                    if n > 256 || q + 17 + n > p.len() {
                        return Err("DHT: bad segment length".into());
                    }
                    let values = &p[q + 17..q + 17 + n];
                    if tc == 0 && values.iter().any(|&v| v > 11) {
                        return Err("DHT: DC category above 11 with 8-bit samples".into());
                    }
                    s.huff[tc][th] = Some(Huff::build(&counts, values)?);
                    s.huff_defs[tc][th] += 1;
                    q += 17 + n;
                }
            }
            0xDD => {
                if p.len() != 2 {
                    return Err("DRI: bad length".into());
                }
                let v = (p[0] as u16) << 8 | p[1] as u16;
                restart_interval = v as usize;
                s.dri.push(v);
            }
            0xC0 | 0xC1 | 0xC2 => {
                if s.sof != 0 {
                    return Err("second frame header".into());
                }
                if p.len() < 6 || p.len() != 6 + 3 * p[5] as usize {
                    return Err("SOF: bad length".into());
                }
                s.sof = m;
                s.precision = p[0];
                s.height = (p[1] as u16) << 8 | p[2] as u16;
                s.width = (p[3] as u16) << 8 | p[4] as u16;
                if s.precision != 8 {
                    return Err(format!("SOF: precision {}", s.precision));
                }
                if s.width == 0 || s.height == 0 {
                    return Err("SOF: zero dimension".into());
                }
                let n = p[5] as usize;
                if n == 0 || (m == 0xC2 && n > 4) {
                    return Err(format!("SOF: {} components", n));
                }
                let (mut hm, mut vm) = (1, 1);
                for i in 0..n {
                    let c = &p[6 + 3 * i..9 + 3 * i];
                    let (h, v) = ((c[1] >> 4) as usize, (c[1] & 15) as usize);
                    if !(1..=4).contains(&h) || !(1..=4).contains(&v) || c[2] > 3 {
                        return Err(format!("SOF: bad component parameters {:?}", c));
                    }
                    if s.comps.iter().any(|k: &Comp| k.id == c[0]) {
                        return Err("SOF: duplicate component id".into());
                    }
                    hm = hm.max(h);
                    vm = vm.max(v);
                    s.comps.push(Comp {
                        id: c[0], h, v, tq: c[2], bw: 0, bh: 0, gw: 0, gh: 0,
                        coefs: Vec::new(), sent: [false; 64], qt: None,
                    });
                }
                let (mx, my) =
                    (ceil_div(s.width as usize, 8 * hm), ceil_div(s.height as usize, 8 * vm));
                for c in s.comps.iter_mut() {
                    c.bw = ceil_div(ceil_div(s.width as usize * c.h, hm), 8);
                    c.bh = ceil_div(ceil_div(s.height as usize * c.v, vm), 8);
                    c.gw = mx * c.h;
                    c.gh = my * c.v;
                    // allocated on the first scan so that a wrong header cannot exhaust memory
                    c.coefs = Vec::new();
                }
            }
            0xDA => {
                pos = scan(d, pos, p.to_vec(), restart_interval, &mut s, cov)?;
            }
            _ => return Err(format!("unexpected marker {:#04x}", m)),
        }
    }
    if s.sof == 0 {
        return Err("no frame header".into());
    }
    for c in &s.comps {
        if let Some(k) = c.sent.iter().position(|x| !x) {
            return Err(format!("component {}: coefficient {} is never sent", c.id, k));
        }
    }
    Ok(s)
}

fn scan(
    d: &[u8],
    pos: usize,
    p: Vec<u8>,
    interval: usize,
    s: &mut Stream,
    cov: &mut Cov,
) -> Result<usize, String> {
    if s.sof == 0 {
        return Err("SOS before SOF".into());
    }
    if p.is_empty() || p.len() != 4 + 2 * p[0] as usize {
        return Err("SOS: bad length".into());
    }
    let n = p[0] as usize;
    if n == 0 || n > 4 {
        return Err(format!("SOS: {} components", n));
    }
    let progressive = s.sof == 0xC2;
    let (ss, se, ah, al) =
        (p[1 + 2 * n], p[2 + 2 * n], p[3 + 2 * n] >> 4, p[3 + 2 * n] & 15);
    let mut idx = Vec::new();
    let (mut td, mut ta) = (Vec::new(), Vec::new());
    for i in 0..n {
        let id = p[1 + 2 * i];
        let k = s
            .comps
            .iter()
            .position(|c| c.id == id)
            .ok_or_else(|| format!("SOS: unknown component {}", id))?;
        if let Some(&last) = idx.last() {
            if k <= last {
                return Err("SOS: components not in frame order".into());
            }
        }
        idx.push(k);
        let t = p[2 + 2 * i];
        let lim = if s.sof == 0xC0 { 1 } else { 3 };
        if t >> 4 > lim || t & 15 > lim {
            return Err(format!("SOS: bad table selector {:#04x}", t));
        }
        td.push(t >> 4);
        ta.push(t & 15);
    }
    if ah != 0 || al != 0 {
        return Err(format!("SOS: successive approximation {}/{}", ah, al));
    }
    if progressive {
        if ss == 0 {
            if se != 0 {
                return Err(format!("SOS: DC scan with Se={}", se));
            }
        } else {
            if n != 1 {
                return Err("SOS: AC scan with several components".into());
            }
            if se < ss || se > 63 {
                return Err(format!("SOS: invalid spectral selection {}..{}", ss, se));
            }
        }
    } else if ss != 0 || se != 63 {
        return Err(format!("SOS: sequential scan with spectral selection {}..{}", ss, se));
    }
    if n > 1 {
        let sum: usize = idx.iter().map(|&k| s.comps[k].h * s.comps[k].v).sum();
        if sum > 10 {
            return Err(format!("SOS: {} blocks per MCU", sum));
        }
    }
    let (hm, vm) = s.comps.iter().fold((1, 1), |a, c| (a.0.max(c.h), a.1.max(c.v)));
    let (mcux, mcuy) = if n == 1 {
        (s.comps[idx[0]].bw, s.comps[idx[0]].bh)
    } else {
        (ceil_div(s.width as usize, 8 * hm), ceil_div(s.height as usize, 8 * vm))
    };
    let mcus = mcux * mcuy;
    // an entropy-coded MCU takes at least one bit per block; refuse absurd sizes before allocating
    if mcus / 8 > d.len() {
        return Err("entropy-coded data too short for the declared dimensions".into());
    }
    for (i, &k) in idx.iter().enumerate() {
        let c = &mut s.comps[k];
        if c.coefs.is_empty() {
            c.coefs = vec![[0; 64]; c.gw * c.gh];
        }
        match s.qts[c.tq as usize] {
            None => return Err(format!("quantisation table {} not defined", c.tq)),
            Some(t) => {
                if let Some(o) = c.qt {
                    if o != t {
                        return Err("quantisation table redefined between scans".into());
                    }
                }
                c.qt = Some(t)
            }
        }
        for z in ss..=se {
            if c.sent[z as usize] {
                return Err(format!("component {}: coefficient {} sent twice", c.id, z));
            }
            c.sent[z as usize] = true;
        }
        if progressive && ss > 0 && !c.sent[0] {
            return Err(format!("component {}: AC scan before its DC scan", c.id));
        }
        if ss == 0 && s.huff[0][td[i] as usize].is_none() {
            return Err(format!("DC Huffman table {} not defined", td[i]));
        }
        if se > 0 && s.huff[1][ta[i] as usize].is_none() {
            return Err(format!("AC Huffman table {} not defined", ta[i]));
        }
    }
    let huff = &s.huff;
    let comps = &mut s.comps;
    let hist = &mut s.hist;
    let kind = if !progressive { 0 } else if ss == 0 { 1 } else { 2 };
    let mut b = Bits { d, pos, acc: 0, n: 0, used: 0, word: (0, 0), words: [0; 32] };
    let mut pred = [0i32; 4];
    let mut eobrun = 0u32;
    let mut togo = interval;
    let mut rsts = 0usize;
    let mut bits = 0u64;
    for mcu in 0..mcus {
        if interval > 0 && togo == 0 {
            if eobrun != 0 {
                return Err("end-of-band run crosses a restart".into());
            }
            bits += b.used;
            b.end_segment().map_err(|e| format!("scan {} before MCU {}: {}", s.scans.len(), mcu, e))?;
            if b.pos + 2 > d.len() || d[b.pos] != 0xFF {
                return Err("restart marker missing".into());
            }
            let m = d[b.pos + 1];
            if m != 0xD0 + (rsts % 8) as u8 {
                return Err(format!(
                    "scan {} before MCU {}: expected RST{}, found marker {:#04x}",
                    s.scans.len(), mcu, rsts % 8, m
                ));
            }
            b.pos += 2;
            rsts += 1;
            pred = [0; 4];
            togo = interval;
        }
        cov.state(kind, n, (b.used & 63) as usize, if interval == 0 { 8 } else { rsts % 8 }, togo);
        for (i, &k) in idx.iter().enumerate() {
            let c = &mut comps[k];
            let (nh, nv) = if n == 1 { (1, 1) } else { (c.h, c.v) };
            for by in 0..nv {
                for bx in 0..nh {
                    let (gx, gy) = ((mcu % mcux) * nh + bx, (mcu / mcux) * nv + by);
                    let blk = &mut c.coefs[gy * c.gw + gx];
                    let r = block(
                        &mut b, blk, ss, se, &huff[0][td[i] as usize], &huff[1][ta[i] as usize],
                        &mut hist[..], td[i], ta[i], &mut pred[i], progressive, &mut eobrun, cov,
                    );
                    r.map_err(|e| format!("scan {} MCU {}: {}", s.scans.len(), mcu, e))?;
                }
            }
        }
        if interval > 0 {
            togo -= 1;
        }
    }
    if eobrun != 0 {
        return Err("end-of-band run crosses the end of the scan".into());
    }
    bits += b.used;
    b.end_segment().map_err(|e| format!("scan {} end: {}", s.scans.len(), e))?;
    if b.pos + 1 < d.len() && d[b.pos] == 0xFF && (0xD0..=0xD7).contains(&d[b.pos + 1]) {
        return Err(format!("RST{} after the last MCU of scan {}", d[b.pos + 1] - 0xD0, s.scans.len()));
    }
    for (a, w) in cov.words.iter_mut().zip(&b.words) {
        *a |= w
    }
    s.total_rst += rsts;
    s.total_mcus += mcus;
    s.scans.push(Scan {
        comps: idx, ss, se, ah, al, td, ta, mcus, dri: interval, rst_count: rsts, bits,
    });
    Ok(b.pos)
}

#[allow(clippy::too_many_arguments)]
#[inline]
fn block(
    b: &mut Bits,
    blk: &mut [i16; 64],
    ss: u8,
    se: u8,
    dc: &Option<Huff>,
    ac: &Option<Huff>,
    hist: &mut [[[u32; 256]; 4]],
    td: u8,
    ta: u8,
    pred: &mut i32,
    progressive: bool,
    eobrun: &mut u32,
    cov: &mut Cov,
) -> Result<(), String> {
    if ss == 0 {
        let ph = (b.used & 63) as usize;
        let t = b.symbol(dc.as_ref().unwrap())?;
        hist[0][td as usize][t as usize] += 1;
        cov.sym(0, t, ph);
        if t > 11 {
            return Err(format!("DC category {}", t));
        }
        *pred += b.extend(t as u32)?;
        if !(-2048..=2047).contains(pred) {
            return Err(format!("DC value {} out of range", *pred));
        }
        blk[0] = *pred as i16;
    }
    if se > 0 {
        if *eobrun > 0 {
            *eobrun -= 1;
            return Ok(());
        }
        let h = ac.as_ref().unwrap();
        let mut k = ss.max(1) as usize;
        while k <= se as usize {
            let ph = (b.used & 63) as usize;
            let rs = b.symbol(h)?;
            hist[1][ta as usize][rs as usize] += 1;
            cov.sym(1, rs, ph);
            let (r, sz) = ((rs >> 4) as usize, (rs & 15) as u32);
            if sz == 0 {
                if r == 15 {
                    k += 16;
                    if k > se as usize + 1 {
                        return Err("zero run past the end of the band".into());
                    }
                    continue;
                }
                if r == 0 {
                    break;
                }
                if !progressive {
                    return Err(format!("invalid AC symbol {:#04x}", rs));
                }
                *eobrun = (1 << r) + b.take(r as u32)? - 1;
                break;
            }
            if sz > 10 {
                return Err(format!("AC category {}", sz));
            }
            k += r;
            if k > se as usize {
                return Err("coefficient index past the end of the band".into());
            }
            blk[k] = b.extend(sz)? as i16;
            k += 1;
        }
    }
    Ok(())
}
