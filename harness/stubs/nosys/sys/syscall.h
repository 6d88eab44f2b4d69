/* no getrandom system call number: older kernel headers */
