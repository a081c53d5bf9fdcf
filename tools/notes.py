BOUNDED = "Exhaustive within the stated bounds, executed on the real code; nothing is sampled. Trusts numpy, wulfric and the reference written in /verif."
NOTES["C01"] = ("explicit-state exploration of operation histories against a reference model", BOUNDED)
NOTES["C02"] = ("explicit-state exploration of operation histories against a reference model", BOUNDED)
NOTES["C03"] = ("bounded-exhaustive enumeration of filter configurations against a reference model", BOUNDED)
NOTES["C04"] = ("bounded-exhaustive enumeration of (derivation, mutation) histories, state compared before and after", BOUNDED)
NOTES["C05"] = ("bounded-exhaustive enumeration of models, states and settings against a term-by-term reference evaluation", BOUNDED)
NOTES["C06"] = ("bounded-exhaustive enumeration of spiral states against explicitly built spin textures", BOUNDED)
NOTES["C07"] = ("exhaustive exploration of minimization runs from a grid of starting states, with an independent energy and torque", BOUNDED)
NOTES["C08"] = ("explicit-state exploration of assignment histories against a reference decomposition", BOUNDED)
NOTES["C09"] = ("bounded-exhaustive enumeration of models, states and wave vectors against the linearized equations of motion", BOUNDED)
NOTES["C10"] = ("exhaustive enumeration of Hermitian forms over a finite set of entries", BOUNDED)
NOTES["C11"] = ("bounded-exhaustive enumeration of documented file variants, loaded by the real reader and compared to a reference reader of the format", BOUNDED)
NOTES["C12"] = ("exhaustive enumeration of single damages of model files, verdict compared to a reference recognizer of the format", BOUNDED)
NOTES["C13"] = ("explicit-state exploration of dump/load histories over models, notations and all output options", BOUNDED)
NOTES["C14"] = ("explicit-state exploration of dump histories over files and groups, all groups loaded and compared to a reference store after every step", BOUNDED)
NOTES["C15"] = ("exhaustive fault injection: an error before and after every single operation on the file", BOUNDED)
NOTES["C16"] = ("bounded-exhaustive enumeration of TB2J files, loaded by the real reader and compared to the content they were generated from", BOUNDED)
NOTES["C17"] = ("bounded-exhaustive enumeration of models, notations, options and write failures; written files are evaluated by an independent reader", BOUNDED)
NOTES["C18"] = ("bounded-exhaustive enumeration of command lines; every written state and energy is evaluated independently", BOUNDED)
NOTES["C19"] = ("bounded-exhaustive enumeration of lattice types and choices of the lattice vectors, model compared in the coordinates of space before and after", BOUNDED)
NOTES["C20"] = ("exhaustive enumeration of a grid of directions with neighbourhoods of singular points, and of assignment histories", BOUNDED)
NOTES["C21"] = ("exhaustive enumeration of header settings and command lines", BOUNDED)
