MORE = {
    'C04': 'Oracle: the handler registered for the attribute in any constructor of its class. Listener registrations are compared as (owner, method) pairs.',
    'C07': 'Index arithmetic is compared as polynomials, so any equivalent spelling of the address is accepted.',
    'C14': 'Undecided on the current tree: the helper for vectors of bool (never used by the library), the rows of the transition matrix read through a local, and the modality flag, whose reaction to the limits joins two states.',
    'C19': 'Failing steps: allocation, initialisation, update; cancellation is injected at every call of a step and at every event.',
    'C24': 'The set of quantities that must not change is computed from what toJson reads, so new trained members are covered as soon as they are saved.',
    'C27': 'A representative per interval between literals is exact for code that only compares the density with literals; other operations on it make the case undecided.',
    'C31': 'A sum of weights that no comparison separates from zero is a definite violation, because all weights may be zero; sums that stay inside exp or other functions are undecided.',
}
