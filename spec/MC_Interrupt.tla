---- MODULE MC_Interrupt ----
EXTENDS Interrupt
====
