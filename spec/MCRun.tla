-------------------------------- MODULE MCRun --------------------------------
EXTENDS Run
ASSUME Partition
=============================================================================
