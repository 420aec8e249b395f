----------------------------- MODULE MC_Lineage -----------------------------
EXTENDS Lineage
MCNeeds == <<4, 6>>
View == <<obj, disk, run, Len(cmds), cmds # <<>> /\ cmds[Len(cmds)] = <<"read">>, done>>
=============================================================================
