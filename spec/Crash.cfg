SPECIFICATION Spec
CONSTANTS
    LinkFirst = FALSE
    Runs = 3
INVARIANTS NoDangling LinksLead Recovered OneTorn
