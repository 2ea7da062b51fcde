SPECIFICATION Spec
CONSTANT Lens <- Three
INVARIANTS TypeOK Pure Complete OtherKey Intact Changed
PROPERTY Ends
CHECK_DEADLOCK FALSE
