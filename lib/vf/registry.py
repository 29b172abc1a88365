"""property -> analysis parts"""
from . import part_sem, part_conf, must, tl, units_ref, units_core, units_traits, units_nest, units_wrap, units_types, units_over, units_misuse, units_noexcept, units_warn, units_constexpr

SEM = part_sem.run
MUST = must.make_part(units_ref.UNITS + units_core.UNITS + units_traits.UNITS + units_nest.UNITS + units_wrap.UNITS)
TL = tl.make_part(units_types.UNITS + units_over.UNITS + units_misuse.UNITS + units_noexcept.UNITS + units_warn.UNITS + units_constexpr.UNITS)
PARTS = {p: [SEM, MUST] for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C17", "C26")}
PARTS.update({p: [MUST] for p in ("C12", "C16", "C18", "C19", "C20", "C21", "C22", "C28")})
KINDS = {p: "ai" for p in PARTS}
for p in ("C03", "C05", "C07", "C09", "C10", "C11", "C12", "C14", "C16", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C30", "C31"):
    PARTS.setdefault(p, []).append(TL)
    KINDS[p] = "both" if p in KINDS else "tl"
PARTS["C29"] = [part_conf.run, part_conf.run_types, part_conf.run_programs]
KINDS["C29"] = "both"
PARTS = dict(sorted(PARTS.items()))
NOT_APPLICABLE = {
    "C32": "Equality of optimized machine code with hand-written checks is a property of the optimizer's output for a chosen compiler and target; no analysis of the source decides it, "
           "and the repository's own codegen comparison already samples it.",
    "C33": "The standard libraries and ABIs in question (libc++, MSVC STL, 32-bit targets with their headers) are not installed, so there is no source to analyse.",
}


def level(p):
    return "other" if KINDS[p] == "tl" else "proof"
