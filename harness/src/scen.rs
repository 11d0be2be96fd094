//! Game scenarios: generation, interpretation against a live game, observation.
use crate::grid::*;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RuleSpec {
    /// 0: CHINESE, 1: JAPANESE, 2: custom
    pub kind: u8,
    /// forbidden behaviours, bits of IllegalRules
    pub flags: u8,
    /// scoring options, bits of ScoreRules
    pub score: u8,
    /// komi in 64ths of a point; None keeps the rule's own
    pub komi64: Option<i16>,
}
impl RuleSpec {
    pub fn rule(&self) -> Rule {
        let mut r = match self.kind {
            0 => CHINESE,
            1 => JAPANESE,
            _ => Rule {
                komi: 0.,
                flag_illegal: IllegalRules::from_bits_truncate(self.flags as u32),
                flag_score: ScoreRules::from_bits_truncate(self.score as u32),
            },
        };
        if let Some(k) = self.komi64 {
            r.komi = k as f32 / 64.0;
        }
        r
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SetupItem {
    Stone(u16, bool),
    Tmpl(u8, u8, u8, u8),
    /// a filled rectangle with holes: white, top, left, height, width, hole pattern
    Fill(bool, u8, u8, u8, u8, u16),
    /// one group of many stones with one liberty left (rows, holes in its last row), walled in;
    /// with `ko` its last liberty is where a single opposing stone can be taken first
    Mass { rows: u8, holes: u32, ko: bool, sym: u8 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct RawOp {
    pub k: u8,
    pub a: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub h: u8,
    pub w: u8,
    pub rule: RuleSpec,
    pub setup: Vec<SetupItem>,
    /// Some(true): white to play first, Some(false): black, None: default
    pub turn: Option<bool>,
    pub ops: Vec<RawOp>,
    /// how the game is set up: 0 builder stones, 1 Game::new and put_handicap (black stones
    /// only), 2 builder handicap points and white stones, 3 builder, then set_komi
    #[serde(default)]
    pub via: u8,
}

pub const TEMPLATES: &[&[&str]] = &[
    &[".XO.", "XO.O", ".XO."],                       // ko
    &["XO.O", ".XO."],                               // ko on the edge
    &["O.O", "XO."],                                 // ko in the corner
    &[".XO..XO.", "XO.OXO.O", ".XO..XO."],           // two kos, same side
    &[".XO..OX.", "XO.OOX.X", ".XO..OX."],           // two kos, opposite
    &[".XXO.", "XOO.O", ".XXO."],                    // two-stone capture
    &[".XO.", "XO.O", "XO.O", ".XO."],               // two stones vertical
    &["..XX.", ".XOOX", "XO.OX", ".XOX.", "..X.."],  // snapback-ish
    &[".OOO.", "OX.XO", "OXXXO", ".OOO."],           // inside eye, atari group
    &["XXXX", "X..X", "XX.X", "OOOO"],               // eye space
    &["XO.XO", "X.OXO", "XXOXO"],                    // shared liberties
    &["O.OX", "OOXX", "XXX."],                       // corner eye in atari
    &[".XO", "XO.", ".XO"],                          // open ko
    &["X.X", ".X.", "X.X"],                          // merge centre of four
    &[".O.", "O.O", ".O."],                          // empty flower
    &["XO", "OX"],                                   // crosscut
    &["OX.XO", "OXXXO", "OOOOO"],                    // capturable big group
    &[".OX.", "OX.X", "OOXX"],                       // ko with connection
    &["X.O.", "XXOO", "...."],                       // send two return one seed
    &[".XOO", "XXO.", "OOO."],
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Uniform,
    Cap,
    Atari,
    Near,
    Retake,
    NoEye,
    Throw,
    Wild,
    Force,
    Pass,
    Resign,
    Resume,
    Suicide,
    Cycle,
    /// the point of the last attempt once more
    Again,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// weights for size classes: <=4, rectangles up to 7, 5..9, 10..13, up to 19
    pub sizes: [u32; 5],
    pub max_ops: usize,
    /// weights of op kinds, in the order of `Kind`
    pub kinds: Vec<(Kind, u32)>,
    /// weights of rule kinds (chinese, japanese, custom)
    pub rules: [u32; 3],
    /// flags always set / always cleared in custom rules
    pub set_flags: u8,
    pub clear_flags: u8,
    pub setup: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        use Kind::*;
        Cfg {
            sizes: [44, 30, 18, 5, 3],
            max_ops: 160,
            kinds: vec![
                (Uniform, 16),
                (NoEye, 16),
                (Cap, 14),
                (Atari, 10),
                (Near, 10),
                (Throw, 8),
                (Retake, 10),
                (Suicide, 3),
                (Cycle, 2),
                (Wild, 4),
                (Force, 2),
                (Pass, 4),
                (Resume, 1),
                (Resign, 1),
            ],
            rules: [30, 20, 50],
            set_flags: 0,
            clear_flags: 0,
            setup: true,
        }
    }
}
impl Cfg {
    pub fn kind_of(&self, k: u8) -> Kind {
        let tot: u32 = self.kinds.iter().map(|x| x.1).sum();
        let mut x = k as u32 * tot / 256;
        for &(kd, wt) in &self.kinds {
            if x < wt {
                return kd;
            }
            x -= wt;
        }
        Kind::Uniform
    }
    pub fn without(mut self, ks: &[Kind]) -> Self {
        self.kinds.retain(|x| !ks.contains(&x.0));
        self
    }
    pub fn with(mut self, k: Kind, wt: u32) -> Self {
        self.kinds.retain(|x| x.0 != k);
        self.kinds.push((k, wt));
        self
    }
}

pub fn size_strategy(ws: [u32; 5]) -> BoxedStrategy<(u8, u8)> {
    let mut v: Vec<(u32, BoxedStrategy<(u8, u8)>)> = vec![
        (ws[0], (1u8..=4, 1u8..=4).boxed()),
        (ws[1], (1u8..=7, 1u8..=7).boxed()),
        (ws[2], prop_oneof![(5u8..=9).prop_map(|s| (s, s)), (4u8..=9, 4u8..=9)].boxed()),
        (ws[3], prop_oneof![(10u8..=13).prop_map(|s| (s, s)), (1u8..=13, 8u8..=13)].boxed()),
        (ws[4], prop_oneof![Just((19u8, 19u8)), (1u8..=19, 1u8..=19), (14u8..=19, 14u8..=19)].boxed()),
    ];
    v.retain(|x| x.0 > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn rule_strategy(ws: [u32; 3], set: u8, clear: u8) -> BoxedStrategy<RuleSpec> {
    let kind = proptest::strategy::Union::new_weighted(
        [(ws[0], Just(0u8)), (ws[1], Just(1u8)), (ws[2], Just(2u8))].into_iter().filter(|x| x.0 > 0).collect::<Vec<_>>(),
    );
    let komi = prop_oneof![3 => Just(None), 2 => (-40i16..=60).prop_map(|x| Some(x * 16)), 2 => (-10i16..=10).prop_map(|x| Some(x * 64)),
        1 => (-700i16..=700).prop_map(Some), 1 => any::<i16>().prop_map(Some), 1 => (-4i16..=4).prop_map(Some)];
    (kind, 0u8..16, 0u8..8, komi)
        .prop_map(move |(kind, f, score, komi64)| RuleSpec { kind, flags: (f | set) & !clear, score, komi64 })
        .boxed()
}

pub fn setup_strategy() -> BoxedStrategy<Vec<SetupItem>> {
    let stone = (any::<u16>(), any::<bool>()).prop_map(|(p, c)| SetupItem::Stone(p, c));
    let tmpl = (0u8..TEMPLATES.len() as u8, 0u8..16, 0u8..16, 0u8..16).prop_map(|(t, r, c, s)| SetupItem::Tmpl(t, r, c, s));
    let fill = (any::<bool>(), 0u8..20, 0u8..20, 1u8..20, 1u8..20, any::<u16>()).prop_map(|(c, t, l, h, w, k)| SetupItem::Fill(c, t, l, h, w, k));
    let big = (any::<bool>(), 15u8..20, 15u8..20, any::<u16>()).prop_map(|(c, h, w, k)| SetupItem::Fill(c, 0, 0, h, w, k));
    prop_oneof![
        10 => Just(vec![]),
        2 => prop::collection::vec(fill.clone(), 1..5),
        1 => (prop::collection::vec(stone.clone(), 0..6), big, prop::collection::vec(fill, 0..3)).prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a }),
        4 => prop::collection::vec(stone.clone(), 0..12),
        2 => prop::collection::vec(stone.clone(), 0..60),
        6 => prop::collection::vec(tmpl.clone(), 1..4),
        2 => (prop::collection::vec(tmpl, 1..4), prop::collection::vec(stone, 0..20)).prop_map(|(mut a, b)| { a.extend(b); a }),
    ]
    .boxed()
}

pub fn ops_strategy(max: usize) -> BoxedStrategy<Vec<RawOp>> {
    let op = || (any::<u8>(), any::<u16>()).prop_map(|(k, a)| RawOp { k, a });
    let m = max.max(8);
    prop_oneof![
        20 => prop::collection::vec(op(), 0..m / 6 + 2),
        50 => prop::collection::vec(op(), m / 8..m / 2 + 1),
        30 => prop::collection::vec(op(), m / 2..m),
        1 => prop::collection::vec(op(), m * 2..m * 8),
    ]
    .boxed()
}

pub fn scenario(cfg: &Cfg) -> BoxedStrategy<Scenario> {
    let max = cfg.max_ops.max(60);
    let setup = if cfg.setup { setup_strategy() } else { Just(vec![]).boxed() };
    (
        size_strategy(cfg.sizes),
        rule_strategy(cfg.rules, cfg.set_flags, cfg.clear_flags),
        setup,
        prop_oneof![3 => Just(None), 1 => any::<bool>().prop_map(Some)],
        ops_strategy(cfg.max_ops),
        prop_oneof![6 => Just(0u8), 1 => 1u8..=3],
    )
        .prop_map(move |((h, w), rule, setup, turn, mut ops, via)| {
            // very long games on small boards only
            if h as usize * w as usize > 81 {
                ops.truncate(2 * max)
            }
            Scenario { h, w, rule, setup, turn, ops, via }
        })
        .boxed()
}

/// A very long game: the operations are gone through again and again, each time with other
/// choices.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Marathon {
    pub sc: Scenario,
    pub total: u32,
}
impl Marathon {
    pub fn scenario(&self) -> Scenario {
        let n = self.sc.ops.len();
        let ops = (0..self.total as usize).map(|i| RawOp { k: self.sc.ops[i % n].k.wrapping_add((i / n) as u8 / 3), a: self.sc.ops[i % n].a.wrapping_add(((i / n) as u16).wrapping_mul(7919)) }).collect();
        Scenario { ops, ..self.sc.clone() }
    }
}
/// The heavier, the fewer acts.
pub fn marathon(cfg: &Cfg, weight: u32) -> BoxedStrategy<Marathon> {
    let d = weight;
    let sizes = prop_oneof![
        3 => ((1u8..=3, 1u8..=4), 20_000 / d..100_000 / d),
        4 => ((2u8..=5, 3u8..=5), 6_000 / d..40_000 / d),
        2 => ((5u8..=9, 5u8..=9), 1_500 / d..6_000 / d),
        1 => ((13u8..=19, 13u8..=19), 500..1_500 / d.min(2)),
        // over 65,536 stones of each colour removed
        if d == 1 { 2 } else { 0 } => ((1u8..=2, 1u8..=3), 250_000u32..400_000),
    ];
    (
        sizes,
        rule_strategy(cfg.rules, cfg.set_flags, cfg.clear_flags),
        if cfg.setup { setup_strategy() } else { Just(vec![]).boxed() },
        prop::collection::vec((any::<u8>(), any::<u16>()).prop_map(|(k, a)| RawOp { k, a }), 40..200),
    )
        .prop_map(|(((h, w), total), rule, setup, ops)| Marathon { sc: Scenario { h, w, rule, setup, turn: None, ops, via: 0 }, total })
        .boxed()
}

/// Games that begin with the capture of one large group, half of them right after the group
/// has taken a single stone on its last liberty.
pub fn mass_scenario(cfg: &Cfg) -> BoxedStrategy<Scenario> {
    let codes = |k: Kind| -> Vec<u8> { (0..=255u8).filter(|&c| cfg.kind_of(c) == k).collect() };
    let (cap, retake) = (codes(Kind::Cap), codes(Kind::Retake));
    let sizes = prop_oneof![3 => (14u8..=19, 14u8..=19), 1 => Just((19u8, 19u8)), 1 => (3u8..=19, 2u8..=19)];
    let extra = (any::<u16>(), any::<bool>()).prop_map(|(p, c)| SetupItem::Stone(p, c));
    (
        sizes,
        rule_strategy(cfg.rules, cfg.set_flags, cfg.clear_flags),
        (any::<u8>(), any::<u32>(), prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>()], any::<bool>(), 0u8..16),
        prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(extra, 0..3)],
        prop::collection::vec((any::<u8>(), any::<u16>()).prop_map(|(k, a)| RawOp { k, a }), 4..14),
    )
        .prop_map(move |((h, w), rule, (rows, h1, h2, ko, sym), extra, mut ops)| {
            let mut setup = vec![SetupItem::Mass { rows, holes: h1 & h2, ko, sym }];
            setup.extend(extra);
            let mass_white = sym & 8 == 0;
            for (i, codes) in [&cap, if ko { &retake } else { &cap }].into_iter().enumerate() {
                if !codes.is_empty() {
                    ops[i].k = codes[ops[i].k as usize % codes.len()];
                }
            }
            Scenario { h, w, rule, setup, turn: Some(mass_white == ko), ops, via: 0 }
        })
        .boxed()
}

/// The starting position: setup items in order, occupied or off-board points
/// skipped, groups without liberties removed.
pub fn setup_grid(h: usize, w: usize, items: &[SetupItem]) -> Grid {
    let mut g = Grid::new(h, w);
    for it in items {
        match *it {
            SetupItem::Stone(p, white) => {
                let p = p as usize % g.len();
                if g.c[p] == E {
                    g.c[p] = if white { W } else { B };
                }
            }
            SetupItem::Fill(white, t, l, fh, fw, k) => {
                let (t, l) = (t as usize % h, l as usize % w);
                // one hole in `every` points, the first one moved about
                let every = 3 + (k % 61) as usize;
                for i in t..(t + fh as usize).min(h) {
                    for j in l..(l + fw as usize).min(w) {
                        if (i * w + j + (k >> 6) as usize) % every != 0 && g.c[i * w + j] == E {
                            g.c[i * w + j] = if white { W } else { B };
                        }
                    }
                }
            }
            SetupItem::Mass { rows, holes, ko, sym } => {
                let (bh, bw) = if sym & 4 != 0 { (w, h) } else { (h, w) };
                if bh < 3 || bw < 2 {
                    continue;
                }
                let rows = 1 + rows as usize % (bh - 2);
                let mut m = Grid::new(bh, bw);
                for i in 0..=rows {
                    for j in 0..bw {
                        let hole = i == rows - 1 && rows >= 2 && j >= 3 && holes >> j & 1 == 1;
                        m.c[i * bw + j] = if i == rows || hole { B } else { W };
                    }
                }
                m.c[0] = if ko { B } else { E };
                if ko {
                    m.c[1] = E;
                }
                let m = m.map(Sym(sym & 15));
                for q in 0..m.len() {
                    if g.c[q] == E {
                        g.c[q] = m.c[q];
                    }
                }
            }
            SetupItem::Tmpl(t, r, c, s) => {
                let t = TEMPLATES[t as usize % TEMPLATES.len()];
                let (th, tw) = (t.len(), t[0].len());
                let mut tg = Grid::new(th, tw);
                for (i, row) in t.iter().enumerate() {
                    for (j, ch) in row.chars().enumerate() {
                        tg.c[i * tw + j] = match ch {
                            'X' => B,
                            'O' => W,
                            _ => E,
                        }
                    }
                }
                let tg = tg.map(Sym(s & 15));
                // anchored at edges fairly often
                let place = |v: usize, dim: usize, sz: usize| if dim <= sz { 0 } else { v % (dim - sz + 1) };
                let (r0, c0) = (place(r as usize, h, tg.h), place(c as usize, w, tg.w));
                for i in 0..tg.h.min(h) {
                    for j in 0..tg.w.min(w) {
                        let q = (r0 + i) * w + c0 + j;
                        if g.c[q] == E {
                            g.c[q] = tg.c[i * tg.w + j];
                        }
                    }
                }
            }
        }
    }
    g.strip_dead();
    g
}

impl Scenario {
    pub fn start_grid(&self) -> Grid {
        let mut g = setup_grid(self.h as usize, self.w as usize, &self.setup);
        if self.via == 1 {
            for c in g.c.iter_mut().filter(|c| **c == W) {
                *c = E
            }
            g.strip_dead();
        }
        g
    }
    pub fn new_game(&self) -> Game {
        let g = self.start_grid();
        let rule = self.rule.rule();
        let of = |c: u8| -> Vec<_> { (0..g.len()).filter(|&p| g.c[p] == c).map(|p| g.coord(p)).collect() };
        match self.via {
            1 => {
                let size = if g.h == g.w && [9, 13, 19].contains(&g.h) {
                    [GobanSizes::Nine, GobanSizes::Thirteen, GobanSizes::Nineteen][g.h / 5 - 1]
                } else {
                    GobanSizes::Custom(g.h as _, g.w as _)
                };
                let mut k = Game::new(size, rule);
                let b = of(B);
                if !b.is_empty() {
                    k.put_handicap(&b);
                }
                k
            }
            2 => {
                let mut b = Game::builder();
                b.put_handicap(&of(B)).rule(rule).size((g.h as u8, g.w as u8));
                for coord in of(W) {
                    b.add(Stone { coord, color: col(W) });
                }
                if let Some(t) = self.turn {
                    b.turn(col(if t { W } else { B }));
                }
                b.build().expect("builder refused a plain game")
            }
            3 => {
                let mut k = make_game(&g, Rule { komi: 123., ..rule }, self.turn);
                k.set_komi(rule.komi);
                k
            }
            _ => make_game(&g, rule, self.turn),
        }
    }
}

pub fn make_game(g: &Grid, rule: Rule, turn: Option<bool>) -> Game {
    let mut b = Game::builder();
    b.size((g.h as u8, g.w as u8)).rule(rule);
    for p in 0..g.len() {
        if g.c[p] != E {
            b.add(Stone { coord: g.coord(p), color: col(g.c[p]) });
        }
    }
    if let Some(t) = turn {
        b.turn(col(if t { W } else { B }));
    }
    b.build().expect("builder refused a plain game")
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// checked attempt
    Try(usize),
    /// unchecked play of an empty, non-suicidal (or suicide-allowed) point
    Force(usize),
    Pass,
    Resign(u8),
    Resume,
}

#[derive(Clone, Debug)]
pub enum Last {
    None,
    Pass,
    Play { pre: Grid, pos: usize, captured: Vec<usize>, suicided: bool },
}

/// What the driver has observed so far.
pub struct Ctx {
    pub rule: Rule,
    pub start: Grid,
    pub grid: Grid,
    pub turn: u8,
    /// boards before each stone play
    pub positions: Vec<Grid>,
    pub seen_set: std::collections::HashSet<Vec<u8>>,
    pub last: Last,
    pub last_pos: Option<usize>,
    pub last_try: Option<usize>,
    pub passes: u32,
    pub resigned: Option<u8>,
    pub played: [usize; 3],
    pub trace: Vec<String>,
    pub step: usize,
}
impl Ctx {
    /// A context for playing apart from here, without the past.
    pub fn shallow(&self) -> Ctx {
        Ctx {
            rule: self.rule,
            start: self.grid.clone(),
            grid: self.grid.clone(),
            turn: self.turn,
            positions: vec![],
            seen_set: Default::default(),
            last: Last::None,
            last_pos: None,
            last_try: None,
            passes: self.passes,
            resigned: None,
            played: [0; 3],
            trace: vec![],
            step: 0,
        }
    }
    /// In very long games the expensive questions are asked now and then only.
    pub fn skip(&self, every: usize) -> bool {
        (self.step > 1500 || (self.step > 300 && self.grid.len() > 60)) && self.step % every != 0
    }
    pub fn suicide_allowed(&self) -> bool {
        !self.rule.flag_illegal.contains(IllegalRules::SUICIDE)
    }
    pub fn seen(&self, g: &Grid) -> bool {
        self.grid == *g || self.seen_set.contains(&g.c)
    }
    /// Reference: simple-ko recapture at p by the side to move.
    pub fn is_ko(&self, p: usize) -> bool {
        if self.grid.c[p] != E {
            return false;
        }
        match &self.last {
            Last::Play { pre, captured, pos, suicided } if captured.len() == 1 && captured[0] == p && !*suicided => {
                let r = self.grid.play(p, self.turn, false);
                r.captured.len() == 1 && r.captured[0] == *pos && r.grid == *pre
            }
            _ => false,
        }
    }
    /// Reference: no objection at p apart from ko and eye filling.
    pub fn playable(&self, p: usize) -> bool {
        self.grid.c[p] == E && (self.suicide_allowed() || !self.grid.play(p, self.turn, false).is_suicide)
    }
}

pub struct StepRes<'a> {
    pub act: &'a Act,
    pub pre: &'a Grid,
    pub pre_turn: u8,
    pub post: &'a Grid,
    /// None for acts without a result
    pub err: Option<PlayError>,
    pub accepted: bool,
}

pub use crate::audit::R;

pub trait Observer {
    fn start(&mut self, _g: &mut Game, _c: &Ctx) -> R {
        Ok(())
    }
    /// Called in every state in which an act is about to happen.
    fn state(&mut self, _g: &mut Game, _c: &Ctx) -> R {
        Ok(())
    }
    fn before(&mut self, _g: &mut Game, _c: &Ctx, _a: &Act) -> R {
        Ok(())
    }
    /// The context is the one before the act.
    fn after(&mut self, _g: &mut Game, _c: &Ctx, _s: &StepRes) -> R {
        Ok(())
    }
    fn finish(&mut self, _g: &mut Game, _c: &Ctx) -> R {
        Ok(())
    }
}

pub fn choose(c: &Ctx, cfg: &Cfg, op: RawOp) -> Act {
    let g = &c.grid;
    let n = g.len();
    let a = op.a as usize;
    let mut kind = cfg.kind_of(op.k);
    if c.passes >= 2 {
        return match kind {
            Kind::Wild => Act::Try(a % n),
            Kind::Pass if a % 2 == 0 => Act::Pass,
            Kind::Cap if a % 4 == 0 => Act::Try(a % n),
            Kind::Resign => Act::Resume,
            _ => Act::Resume,
        };
    }
    let pick = |v: Vec<usize>| -> Option<usize> {
        if v.is_empty() {
            None
        } else {
            Some(v[a * v.len() / 65536])
        }
    };
    let uniform = || -> Option<usize> {
        let e = g.empties();
        if e.is_empty() {
            return None;
        }
        let s = a * e.len() / 65536;
        (0..e.len()).map(|i| e[(s + i) % e.len()]).find(|&p| c.playable(p))
    };
    loop {
        let p = match kind {
            Kind::Pass => return Act::Pass,
            Kind::Resign => return Act::Resign(c.resigned.unwrap_or(if a % 2 == 0 { B } else { W })),
            Kind::Resume if c.passes == 0 => return Act::Resume,
            Kind::Resume => return Act::Pass,
            Kind::Wild => return Act::Try(a % n),
            Kind::Uniform => match uniform() {
                Some(p) => Some(p),
                None => return Act::Pass,
            },
            Kind::Cap => pick(
                g.groups().into_iter().filter(|x| x.color != c.turn && x.libs.len() == 1).map(|x| x.libs[0]).collect(),
            ),
            Kind::Atari => pick(
                g.groups()
                    .into_iter()
                    .filter(|x| x.libs.len() <= 2)
                    .flat_map(|x| x.libs)
                    .filter(|&p| c.playable(p))
                    .collect(),
            ),
            Kind::Near => c.last_pos.and_then(|l| {
                let (lr, lc) = ((l / g.w) as i32, (l % g.w) as i32);
                let mut v = vec![];
                for dr in -2..=2i32 {
                    for dc in -2..=2i32 {
                        if g.on(lr + dr, lc + dc) {
                            let p = (lr + dr) as usize * g.w + (lc + dc) as usize;
                            if g.c[p] == E && c.playable(p) {
                                v.push(p)
                            }
                        }
                    }
                }
                pick(v)
            }),
            Kind::Retake => match &c.last {
                Last::Play { captured, .. } => {
                    let v: Vec<usize> = captured.iter().copied().filter(|&p| g.c[p] == E).collect();
                    pick(v)
                }
                _ => None,
            },
            Kind::NoEye => {
                let e = g.empties();
                let s = if e.is_empty() { 0 } else { a * e.len() / 65536 };
                let r = (0..e.len())
                    .map(|i| e[(s + i) % e.len()])
                    .find(|&p| g.nb(p).iter().any(|&x| g.c[x] != c.turn) && c.playable(p));
                match r {
                    Some(p) => Some(p),
                    None => return Act::Pass,
                }
            }
            Kind::Throw => {
                let e = g.empties();
                let s = if e.is_empty() { 0 } else { a * e.len() / 65536 };
                (0..e.len().min(40)).map(|i| e[(s + i) % e.len()]).find(|&p| {
                    let r = g.play(p, c.turn, false);
                    !r.is_suicide && r.grid.group(p).libs.len() == 1
                })
            }
            Kind::Suicide => {
                let e = g.empties();
                let s = if e.is_empty() { 0 } else { a * e.len() / 65536 };
                (0..e.len()).map(|i| e[(s + i) % e.len()]).find(|&p| g.play(p, c.turn, false).is_suicide)
            }
            Kind::Cycle if n <= 49 => {
                let e = g.empties();
                let s = if e.is_empty() { 0 } else { a * e.len() / 65536 };
                (0..e.len())
                    .map(|i| e[(s + i) % e.len()])
                    .find(|&p| c.playable(p) && c.seen(&g.play(p, c.turn, c.suicide_allowed()).grid))
            }
            Kind::Cycle => None,
            Kind::Again => c.last_try,
            Kind::Force => {
                let v = match &c.last {
                    Last::Play { captured, .. } if a % 2 == 0 => {
                        captured.iter().copied().filter(|&p| g.c[p] == E && c.playable(p)).collect()
                    }
                    _ => vec![],
                };
                match pick(v).or_else(uniform) {
                    Some(p) => return Act::Force(p),
                    None => return Act::Pass,
                }
            }
        };
        match p {
            Some(p) => return Act::Try(p),
            None => kind = if kind == Kind::Retake { Kind::Cap } else { Kind::Uniform },
        }
    }
}

pub fn perform(game: &mut Game, g: &Grid, act: &Act) -> (Option<PlayError>, bool) {
    match *act {
        Act::Try(p) => {
            let (x, y) = g.coord(p);
            match game.try_play(Move::Play(x, y)) {
                Ok(_) => (None, true),
                Err(e) => (Some(e), false),
            }
        }
        Act::Force(p) => {
            let (x, y) = g.coord(p);
            game.play(Move::Play(x, y));
            (None, true)
        }
        Act::Pass => match game.try_play(Move::Pass) {
            Ok(_) => (None, true),
            Err(e) => (Some(e), false),
        },
        Act::Resign(c) => match game.try_play(Move::Resign(col(c))) {
            Ok(_) => (None, true),
            Err(e) => (Some(e), false),
        },
        Act::Resume => {
            game.resume();
            (None, true)
        }
    }
}

pub fn act_str(g: &Grid, t: u8, a: &Act) -> String {
    let c = if t == B { "B" } else { "W" };
    match a {
        Act::Try(p) => format!("{c} try {:?}", g.coord(*p)),
        Act::Force(p) => format!("{c} play {:?}", g.coord(*p)),
        Act::Pass => format!("{c} pass"),
        Act::Resign(x) => format!("resign({})", if *x == B { "B" } else { "W" }),
        Act::Resume => "resume".into(),
    }
}

/// Plays the scenario on a real game, calling the observer around each act.
pub fn drive(sc: &Scenario, cfg: &Cfg, obs: &mut dyn Observer) -> Result<Ctx, String> {
    let mut game = sc.new_game();
    let start = Grid::read(game.goban());
    let mut c = Ctx {
        rule: sc.rule.rule(),
        grid: start.clone(),
        start,
        turn: uncol(game.turn()),
        positions: vec![],
        seen_set: Default::default(),
        last: Last::None,
        last_pos: None,
            last_try: None,
        passes: 0,
        resigned: None,
        played: [0; 3],
        trace: vec![],
        step: 0,
    };
    let wrap = |m: String, c: &Ctx| -> String {
        let skip = c.trace.len().saturating_sub(400);
        let cut = if skip > 0 { format!("({skip} acts), ") } else { String::new() };
        format!("{m}\n-- start {}x{} rule {:?}\n{}-- acts: {cut}{}\n-- board\n{}", sc.h, sc.w, sc.rule.rule(), c.start.show(), c.trace[skip..].join(", "), c.grid.show())
    };
    obs.start(&mut game, &c).map_err(|m| wrap(m, &c))?;
    obs.state(&mut game, &c).map_err(|m| wrap(m, &c))?;
    for &op in &sc.ops {
        if c.grid.len() == 0 {
            break;
        }
        let act = choose(&c, cfg, op);
        crate::runner::note(|| format!("{} | {}x{}\n{}", act_str(&c.grid, c.turn, &act), c.grid.h, c.grid.w, c.grid.show()));
        obs.before(&mut game, &c, &act).map_err(|m| wrap(m, &c))?;
        let (err, accepted) = perform(&mut game, &c.grid, &act);
        let post = Grid::read(game.goban());
        let pre = c.grid.clone();
        c.trace.push(format!("{}{}", act_str(&pre, c.turn, &act), err.map_or(String::new(), |e| format!(" -> {e:?}"))));
        let res = StepRes { act: &act, pre: &pre, pre_turn: c.turn, post: &post, err, accepted };
        obs.after(&mut game, &c, &res).map_err(|m| {
            let mut s = wrap(m, &c);
            s.push_str(&format!("-- after\n{}", post.show()));
            s
        })?;
        c.step += 1;
        if let Act::Try(p) = act {
            c.last_try = Some(p);
        }
        if accepted {
            match act {
                Act::Try(p) | Act::Force(p) => {
                    let mover = c.turn;
                    let captured: Vec<usize> = (0..pre.len()).filter(|&q| pre.c[q] == opp(mover) && post.c[q] == E).collect();
                    c.positions.push(pre.clone());
                    c.seen_set.insert(pre.c.clone());
                    c.last = Last::Play { suicided: post.c[p] == E, pre, pos: p, captured };
                    c.last_pos = Some(p);
                    c.passes = 0;
                    c.played[mover as usize] += 1;
                }
                Act::Pass => {
                    c.last = Last::Pass;
                    c.passes += 1;
                }
                Act::Resign(x) => c.resigned = Some(x),
                Act::Resume => c.passes = 0,
            }
        }
        c.grid = post;
        c.turn = uncol(game.turn());
        obs.state(&mut game, &c).map_err(|m| wrap(m, &c))?;
    }
    obs.finish(&mut game, &c).map_err(|m| wrap(m, &c))?;
    Ok(c)
}

/// A compact rendering for evidence samples.
pub fn summary(sc: &Scenario, c: &Ctx) -> String {
    let mut t = c.trace[..c.trace.len().min(200)].join(", ");
    if t.len() > 600 {
        let mut k = 600;
        while !t.is_char_boundary(k) {
            k -= 1
        }
        t.truncate(k);
        t.push_str(" …");
    }
    format!(
        "{}x{} rule kind {} flags {:04b} start {} acts: {}",
        sc.h,
        sc.w,
        sc.rule.kind,
        sc.rule.rule().flag_illegal.bits(),
        c.start.show().replace('\n', "/"),
        t
    )
}
