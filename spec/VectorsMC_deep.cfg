SPECIFICATION Spec
CONSTANT Steps = 5000
INVARIANTS FieldLaws FieldLawsFe GroupLaws Derivation SigLaw
CHECK_DEADLOCK FALSE
