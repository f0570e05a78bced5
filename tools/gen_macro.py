#!/usr/bin/env python3
"""Writes harness/src/bin/kvmacro/ugens.rs: UGens of many shapes defined with impl_ugen (run by hand)."""
import os, random
R = random.Random(7)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["// written by tools/gen_macro.py", "use super::*;", ""]
names = ["freq", "amp", "t_restart", "mode", "q", "delay_time", "n", "on", "zeta", "alpha", "r#loop", "gain2"]
names = [n for n in names if not n.startswith("r#")]
tab = []
def num(x): return repr(float(x))
TOTAL = 90
for k in range(TOTAL):
    ins, outs = (k % 5, R.randrange(0, 5)) if k % 7 else (0, 0)
    # the last ones are large
    big = k >= 60
    if big: ins, outs = R.randrange(0, 17), R.randrange(0, 17)
    blk = R.random() < 0.6
    own_frame = R.random() < 0.15          # process has the signature of the trait
    own_block = blk and R.random() < 0.3   # process_block too
    ctx, flags = R.random() < 0.6, R.random() < 0.6
    order = [a for a, u in (("ctx", ctx), ("flags", flags), ("in", ins > 0)) if u]
    border = [a for a, u in (("ctx", R.random() < 0.6), ("flags", R.random() < 0.6), ("in", ins > 0), ("out", outs > 0)) if u]
    if own_frame: order = ["ctx", "flags", "in"]
    elif order == ["ctx", "flags"] or order == []: pass
    if own_frame: blk, own_block = blk and own_block, blk and own_block
    by_attr = R.random() < 0.3 and not own_frame
    # the attribute form keeps the name of the function
    pname = "tick" if by_attr else "process"
    bname = "tick_block" if by_attr and not own_block else "process_block"
    has_init = R.random() < 0.7
    params = []
    nm = names[:]; R.shuffle(nm)
    if big: nm += [f"p{i}_{R.randrange(100)}" for i in range(20)]; R.shuffle(nm)
    for i in range(R.randrange(5, 25) if big else R.randrange(0, 7) if k % 9 else 0):
        t = R.choice(["f64", "f32", "PFloat", "PInteger", "bool", "trigger"])
        c = R.choice(["", "", "&AudioCtx", "&mut AudioCtx"])
        first = R.random() < 0.5
        attrs, hint = [], "Hint::None"
        if t in ("f64", "f32", "PFloat"):
            d = R.choice([None, 0.0, 0.5, 100.0, -3.25]); r = R.choice([None, None, (0.5, 1.0), (-10.0, 20000.0)])
            kd = R.choice([None, "Frequency", "Amplitude", "Q", "Seconds"]); lg = R.choice([None, True, False])
            if d is not None: attrs.append(f"default = {num(d)}")
            if r: attrs.append(f"range = {num(r[0])}..={num(r[1])}".replace("..=-", "..= -"))
            if kd: attrs.append(f"kind = {kd}")
            if lg is not None: attrs.append(f"logarithmic = {str(lg).lower()}")
            R.shuffle(attrs)
            h = "PFloatHint { default: %s, range: %s, kind: %s, is_logarithmic: %s }" % (
                f"Some({num(d)})" if d is not None else "None",
                f"Some(FloatParameterRange::Range({num(r[0])}, {num(r[1])}))" if r else "None",
                f"Some(FloatParameterKind::{kd})" if kd else "None", "Some(true)" if lg else "None")
            hint = f"Hint::F({h})"
        elif t == "PInteger":
            e = R.choice([None, "Wave", "Done", "Gap"] if big else [None, "Wave", "Done"])
            if e: attrs.append(f"from = {e}")
            hint = f"Hint::Enum(&{e.upper()})" if e else "Hint::Int"
        elif t == "bool": hint = "Hint::Bool"
        else: hint = "Hint::Trig"
        params.append((nm[i], t, c, first, attrs, hint))
    s = f"pub struct Gen{k}<F> {{ log: Log, n: u64, _f: PhantomData<F> }}\n#[impl_ugen]\nimpl<F: Float> Gen{k}<F> {{\n"
    if own_frame or own_block or R.random() < 0.1:
        s += f"    type Inputs = U{ins};\n    type Outputs = U{outs};\n"
        override = True
    else: override = False
    s += "    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }\n"
    body_p = []
    for (n, t, c, first, attrs, hint) in params:
        a = []
        if c: a.append(f"ctx: {c}")
        if t != "trigger": a.append(f"v: {t}")
        if not first: a.reverse()
        at = f"#[param({', '.join(attrs)})]" if attrs else "#[param]"
        v = {"trigger": "0.0", "bool": "v as u8 as f64", "PInteger": "v.0 as f64", "f32": "v as f64"}.get(t, "v")
        cx = "ctx.sample_rate()" if c else "0"
        body_p.append(f"    {at}\n    pub fn {n}(&mut self, {', '.join(a)}) {{ self.log.push(\"{n}\", {v}, {cx}); }}\n")
    fns = []
    if has_init:
        nmi = "prepare" if R.random() < 0.3 else "init"
        at = "    #[init]\n" if nmi == "prepare" else ""
        fns.append(f"{at}    fn {nmi}(&mut self, sample_rate: u32, block_size: usize) {{ self.log.push(\"init\", block_size as f64, sample_rate); }}\n")
    # process
    if own_frame:
        fns.append(f"""    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {{
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U{outs}>::default();
        for j in 0..{outs} {{ o[j] = frame_out(&input, j, self.n); }}
        self.n += 1;
        o
    }}
""")
    else:
        sig = {"ctx": "ctx: &mut AudioCtx", "flags": "flags: &mut UGenFlags", "in": f"input: [F; {ins}]"}
        a = ", ".join(sig[x] for x in order)
        inp = "&input" if "in" in order else "&[]"
        b = ""
        if "ctx" in order: b += '        self.log.tick(ctx.sample_rate());\n'
        if "flags" in order: b += "        flags.mark_done(self.n as u32);\n"
        ret = f" -> [F; {outs}]" if outs or R.random() < 0.5 or override else ""
        arr = "core::array::from_fn(|j| frame_out(%s, j, self.n))" % inp
        if not ret: arr = ""
        at = "    #[process]\n" if by_attr else ""
        sep = ", " if a else ""
        if ret:
            fns.append(f"{at}    fn {pname}(&mut self{sep}{a}){ret} {{\n{b}        let o = {arr};\n        self.n += 1;\n        o\n    }}\n")
        else:
            # a process function without a result produces no frame: give it one
            fns.append(f"{at}    fn {pname}(&mut self{sep}{a}) -> [F; 0] {{\n{b}        self.n += 1;\n        []\n    }}\n")
    if blk:
        if own_block:
            fns.append(f"""    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {{
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {{
            let x: [F; {ins}] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..{outs} {{ output.write(block_out(&x, j, self.n + f as u64), j, f); }}
        }}
        self.n += n as u64;
    }}
""")
        else:
            if not border or (outs == 0 and ins == 0 and "ctx" not in border): border = ["ctx"] + [x for x in border if x != "ctx"]
            sig = {"ctx": "ctx: &mut AudioCtx", "flags": "flags: &mut UGenFlags", "in": f"input: [&[F]; {ins}]", "out": f"output: [&mut [F]; {outs}]"}
            a = ", ".join(sig[x] for x in border)
            inp = "&core::array::from_fn::<F, %d, _>(|i| input[i][f])" % ins if "in" in border else "&[]"
            n = "output[0].len()" if "out" in border else ("input[0].len()" if "in" in border else "ctx.frames_to_process()")
            b = f"        let n = {n};\n"
            if "ctx" in border: b += '        self.log.tick(ctx.sample_rate());\n'
            if "flags" in border: b += "        flags.mark_done(self.n as u32);\n"
            if "out" in border:
                b += f"        let mut output = output;\n        for f in 0..n {{ for j in 0..{outs} {{ output[j][f] = block_out({inp}, j, self.n + f as u64); }} }}\n"
            elif "in" in border: b += "        let _ = &input;\n"
            at = "    #[process_block]\n" if bname == "tick_block" else ""
            fns.append(f"{at}    fn {bname}(&mut self, {a}) {{\n{b}        self.n += n as u64;\n    }}\n")
    allf = fns + body_p
    R.shuffle(allf)
    # parameters are numbered in the order they are written
    order_p = [p for f in allf for p in params if f"pub fn {p[0]}(" in f]
    s += "".join(allf) + "}\n"
    out.append(s)
    pf = "flags" in order or own_frame
    bf = (own_block or (blk and "flags" in border))
    ps = ", ".join(f'Par {{ name: "{n}", kind: {dict(trigger=4, bool=3, PInteger=2, f32=1).get(t, 0)}, ctx: {str(bool(c)).lower()}, hint: {h} }}' for (n, t, c, _, _, h) in order_p)
    tab.append(f"        {k} => run::<Gen{k}<F>, F>(Gen{k}::make, Def {{ ins: {ins}, outs: {outs}, init: {str(has_init).lower()}, block: {str(blk).lower()}, frame_flags: {str(pf).lower()}, block_flags: {str(bf).lower()}, frame_ctx: {str(('ctx' in order) and not own_frame).lower()}, block_ctx: {str(blk and not own_block and 'ctx' in border).lower()}, params: &[{ps}] }}, src, ctx),")
out.append("pub const COUNT: usize = " + str(TOTAL) + ";\npub fn any<F: Float>(k: usize, src: &mut Src, ctx: &mut Ctx) -> Res {\n    match k {\n" + "\n".join(tab) + "\n        _ => unreachable!(),\n    }\n}\n")
open(os.path.join(ROOT, "harness/src/bin/kvmacro/ugens.rs"), "w").write("\n".join(out))
