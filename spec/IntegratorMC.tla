---------------------------- MODULE IntegratorMC -----------------------------
EXTENDS Integrator
=============================================================================
