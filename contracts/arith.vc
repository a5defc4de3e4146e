@module arith = codegen/lex_gen.rs
@text
// --- C18: the rows of the two tables ---
pub open spec fn succ_rows(pre: Seq<char>, n: nat) -> Seq<char> decreases n {
    if n == 0 { pre } else { row(succ_rows(pre, (n - 1) as nat), (n - 1) as nat, n) }
}
pub open spec fn pred_rows(pre: Seq<char>, n: nat) -> Seq<char> decreases n {
    if n == 0 { pre } else { row(pred_rows(pre, (n - 1) as nat), n, (n - 1) as nat) }
}
pub open spec fn row(pre: Seq<char>, from: nat, to: nat) -> Seq<char> {
    pre + "    "@ + dec(from) + ": "@ + dec(to) + ";\n"@
}
pub open spec fn arith_text(pre: Seq<char>, n: nat) -> Seq<char> {
    pred_rows(succ_rows(pre + "export type SuccTable = {\n"@, n) + "\n}\n\n"@ + "export type PredTable = {\n"@, n) + "\n}\n"@
}
@fn gen_arithmetic
@spec
    ensures final(buf)@ == arith_text(old(buf)@, max_nums as nat),
@hint start
    let ghost pre = buf@ + "export type SuccTable = {\n"@;
@loop 1
    invariant
        buf@ == succ_rows(pre, $i as nat),
@loop 2
    invariant
        buf@ == pred_rows(succ_rows(pre, max_nums as nat) + "\n}\n\n"@ + "export type PredTable = {\n"@, $i as nat),
