//! Independent reference implementation of the rules of Go on a plain grid.
//! Everything is recomputed by flood fill; nothing is shared with the library.
use goban::pieces::goban::Goban;
use goban::pieces::stones::Color;

pub const E: u8 = 0;
pub const B: u8 = 1;
pub const W: u8 = 2;

pub fn opp(c: u8) -> u8 {
    3 - c
}
pub fn col(c: u8) -> Color {
    match c {
        B => Color::Black,
        W => Color::White,
        _ => panic!("no colour"),
    }
}
pub fn uncol(c: Color) -> u8 {
    match c {
        Color::Black => B,
        Color::White => W,
    }
}
pub fn unmc(c: Option<Color>) -> u8 {
    c.map_or(E, uncol)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Grid {
    pub h: usize,
    pub w: usize,
    pub c: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct RGroup {
    pub color: u8,
    pub stones: Vec<usize>,
    pub libs: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Played {
    pub grid: Grid,
    /// Opposing stones removed.
    pub captured: Vec<usize>,
    /// Own stones removed (allowed suicide).
    pub suicided: Vec<usize>,
    /// Own group has no liberty after the captures.
    pub is_suicide: bool,
}

impl Grid {
    pub fn new(h: usize, w: usize) -> Grid {
        Grid { h, w, c: vec![E; h * w] }
    }
    /// Observes a library board point by point.
    pub fn read(g: &Goban) -> Grid {
        let (h, w) = g.size();
        let mut r = Grid::new(h as usize, w as usize);
        for i in 0..h {
            for j in 0..w {
                r.c[i as usize * w as usize + j as usize] = unmc(g.get_color((i, j)));
            }
        }
        r
    }
    pub fn len(&self) -> usize {
        self.c.len()
    }
    pub fn coord(&self, p: usize) -> (u8, u8) {
        ((p / self.w) as u8, (p % self.w) as u8)
    }
    pub fn at(&self, (r, c): (u8, u8)) -> u8 {
        self.c[r as usize * self.w + c as usize]
    }
    pub fn idx(&self, (r, c): (u8, u8)) -> usize {
        r as usize * self.w + c as usize
    }
    pub fn on(&self, r: i32, c: i32) -> bool {
        r >= 0 && c >= 0 && (r as usize) < self.h && (c as usize) < self.w
    }
    pub fn nb(&self, p: usize) -> Vec<usize> {
        let (r, c) = (p / self.w, p % self.w);
        let mut v = Vec::with_capacity(4);
        if r > 0 {
            v.push(p - self.w)
        }
        if r + 1 < self.h {
            v.push(p + self.w)
        }
        if c > 0 {
            v.push(p - 1)
        }
        if c + 1 < self.w {
            v.push(p + 1)
        }
        v
    }
    pub fn diag(&self, p: usize) -> Vec<usize> {
        let (r, c) = ((p / self.w) as i32, (p % self.w) as i32);
        let mut v = vec![];
        for (dr, dc) in [(-1, -1), (-1, 1), (1, -1), (1, 1)] {
            if self.on(r + dr, c + dc) {
                v.push((r + dr) as usize * self.w + (c + dc) as usize)
            }
        }
        v
    }
    /// Maximal connected region of equal content containing p (sorted).
    pub fn region(&self, p: usize) -> Vec<usize> {
        let col = self.c[p];
        let mut seen = vec![false; self.len()];
        let mut st = vec![p];
        seen[p] = true;
        let mut out = vec![];
        while let Some(x) = st.pop() {
            out.push(x);
            for n in self.nb(x) {
                if !seen[n] && self.c[n] == col {
                    seen[n] = true;
                    st.push(n);
                }
            }
        }
        out.sort_unstable();
        out
    }
    pub fn libs_of(&self, stones: &[usize]) -> Vec<usize> {
        let mut v: Vec<usize> = stones
            .iter()
            .flat_map(|&s| self.nb(s))
            .filter(|&n| self.c[n] == E)
            .collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    pub fn group(&self, p: usize) -> RGroup {
        let stones = self.region(p);
        let libs = self.libs_of(&stones);
        RGroup { color: self.c[p], stones, libs }
    }
    /// All stone groups, ordered by first stone.
    pub fn groups(&self) -> Vec<RGroup> {
        let mut seen = vec![false; self.len()];
        let mut out = vec![];
        for p in 0..self.len() {
            if self.c[p] != E && !seen[p] {
                let g = self.group(p);
                for &s in &g.stones {
                    seen[s] = true
                }
                out.push(g);
            }
        }
        out
    }
    pub fn empties(&self) -> Vec<usize> {
        (0..self.len()).filter(|&p| self.c[p] == E).collect()
    }
    pub fn count(&self, c: u8) -> usize {
        self.c.iter().filter(|&&x| x == c).count()
    }
    /// Plays `c` at the empty point p.
    pub fn play(&self, p: usize, c: u8, suicide_allowed: bool) -> Played {
        debug_assert_eq!(self.c[p], E);
        let mut g = self.clone();
        g.c[p] = c;
        let mut captured = vec![];
        for n in self.nb(p) {
            if g.c[n] == opp(c) {
                let gr = g.group(n);
                if gr.libs.is_empty() {
                    captured.extend(gr.stones.iter().copied());
                    for &s in &gr.stones {
                        g.c[s] = E
                    }
                }
            }
        }
        captured.sort_unstable();
        let own = g.group(p);
        let is_suicide = own.libs.is_empty();
        let mut suicided = vec![];
        if is_suicide && suicide_allowed {
            for &s in &own.stones {
                g.c[s] = E
            }
            suicided = own.stones;
        }
        Played { grid: g, captured, suicided, is_suicide }
    }
    /// Removes groups without liberties until none is left.
    pub fn strip_dead(&mut self) {
        loop {
            let dead: Vec<usize> = self
                .groups()
                .into_iter()
                .filter(|g| g.libs.is_empty())
                .flat_map(|g| g.stones)
                .collect();
            if dead.is_empty() {
                return;
            }
            for s in dead {
                self.c[s] = E
            }
        }
    }
    pub fn has_dead(&self) -> bool {
        self.groups().iter().any(|g| g.libs.is_empty())
    }
    /// (black, white) territory points.
    pub fn territory(&self) -> (Vec<usize>, Vec<usize>) {
        let mut seen = vec![false; self.len()];
        let (mut tb, mut tw) = (vec![], vec![]);
        for p in 0..self.len() {
            if self.c[p] == E && !seen[p] {
                let reg = self.region(p);
                let (mut b, mut w) = (false, false);
                for &x in &reg {
                    seen[x] = true;
                    for n in self.nb(x) {
                        b |= self.c[n] == B;
                        w |= self.c[n] == W;
                    }
                }
                if b && !w {
                    tb.extend(reg)
                } else if w && !b {
                    tw.extend(reg)
                }
            }
        }
        tb.sort_unstable();
        tw.sort_unstable();
        (tb, tw)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for r in 0..self.h {
            for c in 0..self.w {
                s.push(match self.c[r * self.w + c] {
                    E => '.',
                    B => 'X',
                    _ => 'O',
                })
            }
            s.push('\n');
        }
        s
    }
    /// One of the eight symmetries, then optional colour exchange.
    pub fn map(&self, t: Sym) -> Grid {
        let (h2, w2) = t.dims(self.h, self.w);
        let mut g = Grid::new(h2, w2);
        for p in 0..self.len() {
            let q = t.pt(self.h, self.w, p);
            g.c[q] = t.colour(self.c[p]);
        }
        g
    }
}

/// bit 0: flip rows, bit 1: flip columns, bit 2: transpose (last), bit 3: exchange colours.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sym(pub u8);
impl Sym {
    pub fn dims(self, h: usize, w: usize) -> (usize, usize) {
        if self.0 & 4 != 0 {
            (w, h)
        } else {
            (h, w)
        }
    }
    pub fn pt(self, h: usize, w: usize, p: usize) -> usize {
        let (mut r, mut c) = (p / w, p % w);
        if self.0 & 1 != 0 {
            r = h - 1 - r
        }
        if self.0 & 2 != 0 {
            c = w - 1 - c
        }
        if self.0 & 4 != 0 {
            c * h + r
        } else {
            r * w + c
        }
    }
    pub fn colour(self, c: u8) -> u8 {
        if self.0 & 8 != 0 && c != E {
            opp(c)
        } else {
            c
        }
    }
}
