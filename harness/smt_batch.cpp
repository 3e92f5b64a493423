// Runs many SMT-LIB scripts through the repository's own parser/solver, in one process.
// Protocol on stdin:  "<options> <nbytes>\n<bytes>"  where <options> is a comma separated list
// ("-" for none) of: prop_rational deduce_bounds stats positive negative cache.
// Answer on stdout:   "<status> <nbytes of output> <nbytes of message>\n<output><message>"
// status: ok | error (exception reached the caller; message = what()).
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

#include "Options.h"
#include "Smt2_parser.h"

static bool read_exact(std::string& buf, std::size_t n)
{
    buf.resize(n);
    std::size_t got = 0;
    while (got < n)
    {
        auto k = fread(buf.data() + got, 1, n - got, stdin);
        if (k == 0)
        {
            return false;
        }
        got += k;
    }
    return true;
}

int main()
{
    char line[256];
    while (fgets(line, sizeof(line), stdin))
    {
        char optbuf[200];
        std::size_t n = 0;
        if (sscanf(line, "%199s %zu", optbuf, &n) != 2)
        {
            return 3;
        }
        std::string script;
        if (!read_exact(script, n))
        {
            return 3;
        }
        yaga::Options options;
        std::stringstream opts{optbuf};
        std::string o;
        while (std::getline(opts, o, ','))
        {
            if (o == "prop_rational") options.prop_rational = true;
            if (o == "deduce_bounds") options.deduce_bounds = true;
            if (o == "stats") options.print_stats = true;
            if (o == "positive") options.phase = yaga::Phase::positive;
            if (o == "negative") options.phase = yaga::Phase::negative;
            if (o == "cache") options.phase = yaga::Phase::cache;
        }

        std::stringstream in{script};
        std::stringstream out;
        std::string status = "ok";
        std::string message;
        auto old = std::cout.rdbuf(out.rdbuf());
        std::stringstream err;
        auto old_err = std::cerr.rdbuf(err.rdbuf());
        try
        {
            yaga::parser::Smt2_parser parser;
            parser.set_options(options);
            parser.parse(in, out);
        }
        catch (std::exception& e)
        {
            status = "error";
            message = e.what();
        }
        std::cout.rdbuf(old);
        std::cerr.rdbuf(old_err);
        message += err.str();
        std::string output = out.str();
        printf("%s %zu %zu\n", status.c_str(), output.size(), message.size());
        fwrite(output.data(), 1, output.size(), stdout);
        fwrite(message.data(), 1, message.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
