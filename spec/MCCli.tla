-------------------------------- MODULE MCCli --------------------------------
EXTENDS Cli, TLC
Tell == result # "parsing" => PrintT("ARGV |" \o ToString(argv))
==============================================================================
