------------------------------ MODULE MCRanges ------------------------------
(* Pipeline's calls, and the table of ranges against the layouts.          *)
EXTENDS MCPipeline
ASSUME RangesSound
===========================================================================
