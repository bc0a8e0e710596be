------------------------------ MODULE ProtoGen ------------------------------
(* Protocol families: the scenarios are in ProtoLib.                        *)
EXTENDS ProtoLib
ASSUME Write(ProtoScen(IOEnv.FAM))
=============================================================================
