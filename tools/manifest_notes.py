"""Level notes per claimed property, and reasons for those not claimed."""
NOTES = {
 'K01': 'Every starting quantity x unit combination x exact rational velocity/mass of the grid is enumerated by TLC and decided exactly (1e-9); larger gammas by closure with floating-point tolerance. Trusts scipy constants and the snapping of floats to rationals.',
 'K02': 'All call histories over up to two converters (bounded) plus simulated longer ones; each call must return the value set its configuration determines.',
 'Q01': 'All paths of up to six (thorough: eight) conversions from all stored quantities, enumerated by TLC and decided on logarithms to 7e-6.',
 'D01': "All small files (mode x field-type profile x page shape x comment/blank placement) enumerated by TLC as runs of the reader machine, concretised with drawn values and read in both modes; larger random files decided by the same specification. Trusts the driver's encoder and value decoding.",
 'D02': 'Every enumerated file crossed with page subsets, including pages beyond the end; results decided by TLC token by token.',
 'D03': 'Five reader configurations per file and selection must give the identical observation (data and header description).',
 'D04': 'Attribute subsets x orders x types x layouts enumerated; every public accessor queried and decided against the header machine.',
 'D05': 'All bounded create/save/read histories, plus simulated longer ones and typical beam sizes; values compared exactly.',
 'D06': 'All bounded histories with refused saves on new and pre-existing targets; target bytes compared after each save.',
 'D07': 'All single-fault headers up to the bounded number of definitions; opening must raise. Unknown types are only those of stored fields.',
 'W01': 'All bounded read/write/re-read histories over elegant (ASCII and binary, any column order, 1..5 particles and some beams of 40-97) and OPAL sources, values as exact rationals with varied magnitudes.',
 'W02': 'All operation sequences of length 2-3 with failures, plus drawn sequences of length 8-9; the whole registry is compared after each operation.',
 'W03': 'All step sets of size 1-2 (thorough: also all of size 3) over single- and multi-digit step numbers, each requested step and the default.',
 'W04': 'Every export parsed back from its text; 1..5 particles exhaustively, larger beams drawn.',
 'B01': 'All build histories to length 4-5 with up to 4 lines (reuse of lines and elements, subline flag), drawn histories of length 14 with up to 6 lines; the complete tree and registries compared after every step.',
 'B02': 'All edit histories to length 4 plus drawn ones of length 12; exact rational lengths and edges of every line and element after every step.',
 'B03': 'All access histories to length 4 over two elements with drawn spellings, plus drawn ones of length 14 over four elements.',
 'B04': 'All trees of up to 3 building steps saved and loaded, drawn histories of length 14 with repeated saving, editing and loading.',
 'B05': 'Both planes, lines of up to four elements exhaustively and eight drawn; angles chosen so that the matrices are exact rationals (theta with rational cos/cosh).',
 'L01': 'All lines of up to three items over two elements with coefficients and groups nested twice, all pairs of small lines using each other, drawn lattices of four lines; each rendered in a drawn layout (case, quotes, comments, continuation, order) and every line of it parsed.',
 'L02': 'All RPN expressions of up to four tokens (numbers, pi, five operators, sqrt where exact), all pairs of literals, drawn lattices with up to five interdependent variables; values decided as exact rational multiples of powers of pi.',
 'T01': 'All files of up to three cards over five card types and value counts, drawn files of twelve cards; numbers in drawn spellings, values decided as exact rationals (times pi for angles).',
 'T02': 'All files of up to three lines over seven keywords, drawn files of ten lines; lengths, voltages, phases and frequencies decided as exact rationals.',
 'T03': 'All group sequences up to six cards and drawn ones of up to 25; beamline compared after parsing and after each operation, in both orders.',
 'J01': 'All models of up to three lines and four (thorough: five) references with reuse and reversal, drawn ones of up to five lines and 14 references; from file and from object, repeatedly. The importer machine is checked against the denotation of the lines.',
 'X01': 'All small models plus drawn ones, written up to three times with edits between; the text is executed with stand-ins for the Warp classes (sirepo and warp are not installed: the field map builder of sirepo is a stand-in).',
 'G01': "All small models, all element types with drawn strengths, six momenta; gradients decided as exact rationals in units of 10^6 V/c. sirepo's parser is a stand-in that returns the model.",
 'E01': 'All sessions of three steps (thorough: four), drawn sessions of fourteen steps on three files and three lattices; every lattice and its length decided after every step.',
 'N01': 'All parameter sets of a rational grid (phases with rational tangent make the beta function rational), all histories of four (thorough: five) operations on two inserts, drawn ones of seven on three; every array compared exactly after every operation.',
 'A01': 'All pairs of rows over three values for up to three particles, drawn arrays of up to eight; every statistic decided as an exact rational (square roots by their squares), array compared after every call.',
 'A02': 'All short transform sequences, drawn ones of five steps, and eight-particle beams correlated in blocks of up to four coordinates whose Gram matrix after whitening is computed exactly.',
 'A03': 'Drawn histories of sampling, cleaning, scaling and offsetting over both types; means and covariances exact after every step.',
 'A04': 'Full grid of 252 Twiss triples in each plane, drawn histories; second moments exact at three emittance scales.',
 'A05': 'All histories of four operations on one container and on two containers, drawn ones of nine on three.',
 'U01': 'All setting histories of length three (thorough: four) on both classes, drawn ones of length seven.',
 'U02': 'Drawn histories; the linear invariant form is fitted to the particles and decided exactly, the elliptic potential is measured by a reference implementation in the driver.',
 'M01': 'All densities of weights 0, 1, 3 on two and four points (thorough: up to five) with every argument form, method and inversion, drawn ones of up to nine points; the variates are handed to the sampler, so every sample is decided exactly.',
 'P01': 'All three-point (thorough: four) histories of eight rotations, drawn ones with general Twiss parameters, all pairs of harmonics of 8 to 12 turns, drawn signals of up to 97 turns; angles decided as exact rational cosine and sine.',
 'C01': 'All schedules of the worker pool in the model (liveness under fairness), replayed with delays on drawn parameters; centroids exact where cosines of quarter turns are enough, otherwise against a 200-cell average in integers (3e-3) and against the quadrature of the code (1e-6).',
 'V01': 'All strings of ten tokens up to length four (thorough: five), every character in every font, drawn strings to length twelve and real symbols.',
 'V02': 'All small lines, every element type, drawn sequences of three drawings of up to nine elements; colours tracked across drawings.',
 'V03': 'All small histograms, drawn files of up to three pages with plots on them; figures are read back from matplotlib artists.',
 'V04': 'Drawn histories of seven operations on the plotter and five free plots; artists read back from matplotlib.',
}
NA = {}
