/* stand-in for the autoconf header */
