// Included before the command-line tool's source.  Its main() is called
// varsh_main; files, standard input and output are simulated below libstdc++.
#pragma once
