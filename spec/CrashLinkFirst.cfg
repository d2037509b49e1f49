SPECIFICATION Spec
CONSTANTS
    LinkFirst = TRUE
    Runs = 3
INVARIANTS NoDangling LinksLead Recovered OneTorn
