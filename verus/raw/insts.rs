pub open spec fn starts(s: Seq<char>, c: char) -> bool { is_pre(s, seq![c]) }
// a device has the connections its letter needs
pub open spec fn dev_conns(inst: Instance) -> bool {
    inst.subckt@ == "/device"@ ==> {
        &&& starts(inst.name@, 'R') || starts(inst.name@, 'C') || starts(inst.name@, 'D') ==> inst.conns.len() >= 2
        &&& starts(inst.name@, 'E') || starts(inst.name@, 'G') ==> inst.conns.len() >= 4
    }
}
// no vector outgrows the address space
pub axiom fn ax_conns_len(inst: Instance) ensures inst.conns.len() < usize::MAX / 2;
// a name starts with one letter only
pub broadcast proof fn bl_letter(s: Seq<char>, a: char, b: char)
    requires #[trigger] is_pre(s, seq![a]), #[trigger] is_pre(s, seq![b])
    ensures a == b
{ assert(seq![a][0] == a && seq![b][0] == b); }
