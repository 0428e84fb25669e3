"""R13: the field coders only ask for contexts inside the extents for which the index computation is shown injective and in range (Kani, complete).
The units are those of R11 and R12, with a precondition on every table lookup."""
import u11, u12, u12d, u12l
from u12 import env
# the extents the Kani harness and the complete enumeration of R13 quantify over (hooks/root.rs, section priors)
DIMS = r'''
pub open spec fn copy_dims(t: CopyCommandNibblePriorType) -> (int, int) { (256, match t { CopyCommandNibblePriorType::DistanceBegNib => 9int, CopyCommandNibblePriorType::DistanceMnemonic => 2, CopyCommandNibblePriorType::DistanceLastNib => 1, CopyCommandNibblePriorType::DistanceMantissaNib => 5, CopyCommandNibblePriorType::CountSmall => 16, CopyCommandNibblePriorType::CountBegNib => 1, CopyCommandNibblePriorType::CountLastNib => 1, CopyCommandNibblePriorType::CountMantissaNib => 5, _ => 0 }) }
pub open spec fn dict_dims(t: DictCommandNibblePriorType) -> (int, int) { match t { DictCommandNibblePriorType::SizeBegNib | DictCommandNibblePriorType::SizeLastNib => (256, 1), DictCommandNibblePriorType::Index => (256, 5), DictCommandNibblePriorType::Transform => (2, 16) } }
pub open spec fn lit_dims(t: LiteralCommandPriorType) -> (int, int) { match t { LiteralCommandPriorType::CountSmall => (256, 1), _ => (256, 1) } }
pub open spec fn btype_dims(t: BlockTypePriorType) -> int { match t { BlockTypePriorType::StrideNibble => 1, _ => 3 } }
'''
def dims(u):
    out = []
    for x in u:
        if x == env(False): out += [DIMS, env(True)]
        elif isinstance(x, str) and 'impl LiteralCommandPriors' in x and 'fn get<X: DIx>' in x:
            out.append(x.replace('ensures r.slot', 'requires 0 <= ix.a() < lit_dims(t).0, 0 <= ix.b() < lit_dims(t).1, ix.n() == (if t is CountSmall { 2int } else { 1int }) ensures r.slot'))
        else: out.append(x)
    assert len(out) == len(u) + 1
    return out
UNITS = [('copy', dims(u12.R12copy)), ('dict', dims(u12d.R12dict)), ('literal', dims(u12l.R12lit)), ('bt', dims(u11.R11))]
R13copy, R13dict, R13lit, R13bt = [x[1] for x in UNITS]
