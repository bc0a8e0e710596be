SPECIFICATION Spec
CONSTANT Steps = 150
INVARIANTS FieldLaws FieldLawsFe GroupLaws Derivation SigLaw
CHECK_DEADLOCK FALSE
