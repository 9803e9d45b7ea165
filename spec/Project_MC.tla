------------------------------ MODULE Project_MC ------------------------------
EXTENDS Project
MCTab == [err |-> <<[sel |-> 0 - 1, con |-> FALSE, boot |-> 0], [sel |-> 0, con |-> TRUE, boot |-> 0], [sel |-> 1, con |-> FALSE, boot |-> 1]>>,
          con |-> <<0 - 1, 0>>, best |-> <<1, 0>>]
=============================================================================
