/* empty: lets a NetBSD-flavoured compilation pass on this host */
