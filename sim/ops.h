// Operation codes. a0 is a slot for object operations: 0..7 the thread's own, 1000.. too (a crowd), 100.. shared ones (made and destroyed while no other thread runs).
#pragma once
enum OpCode {
    H_INIT = 1,  // slot alg            (re)initialise a hash context
    H_UPD,       // slot len seed align
    H_DIG,       // slot bits
    H_COPY,      // slot to             copy the context to another slot
    H_ONE,       // alg len seed align bits
    H_STR,       // alg len seed - bits
    H_MULTI,     // alg nseg seed - bits
    H_FILE,      // alg len seed schedseed bits mode fault
    M_INIT = 10, // slot alg
    M_KEY,       // slot klen seed
    M_UPD,       // slot len seed align
    M_DIG,       // slot
    M_COPY,      // slot to
    M_ONE,       // alg klen kseed len seed
    M_GEN,       // alg klen kseed len seed
    ME_NEW,      // slot alg klen seed overload
    ME_UPD,      // slot len seed overload
    ME_DIG,      // slot
    ME_DEL,      // slot
    E_NEW = 25,  // slot alg            HashEncoder
    E_UPD,       // slot len seed overload
    E_DIG,       // slot bits
    E_RESET,     // slot
    E_DEL,       // slot
    B_ENC = 30,  // kind len seed align
    B_DEC,       // kind len seed mutation flags
    BO_NEW,      // slot kind
    BO_ENC,      // slot len seed overload
    BO_DEC,      // slot len seed mutation flags overload
    BO_DEL,      // slot
    OC_HOTP = 40, // alg klen seed counter digits variant
    HO_NEW,      // slot alg overload klen seed
    HO_SECRET,   // slot overload klen seed mutation flags
    HO_COUNTER,  // slot counter
    HO_GEN,      // slot digits str
    HO_DEL,      // slot
    TO_NEW = 50, // slot alg overload klen seed interval
    TO_SECRET,   // slot overload klen seed mutation flags
    TO_INTERVAL, // slot interval
    TO_INITIAL,  // slot t0
    TO_GEN,      // slot digits str+2*through the base class
    TO_REM,      // slot
    TO_UPD,      // slot
    TO_DEL,      // slot
    TO_COUNTER,  // slot counter
    OC_TOTP = 60, // alg klen seed digits interval t0 variant
    X_CLOCK,     // (the clock change dt only)
    BF_INIT = 70, // slot klen seed
    BF_CRYPT,    // slot len seed dir align
    BF_UNIT,     // slot seed dir
    BFO_NEW,     // slot klen seed overload
    BFO_CRYPT,   // slot len seed dir overload
    BFO_DEL,     // slot
    X_ALGSTR = 80, // name overload seed
    X_HEX,       // len seed mode
    X_SD,        // len seed mode
    X_SIZES,     // alg
    SD_NEW = 90, // slot kind len seed zeros   SequentialData; zeros: leading + 256 * trailing
    SD_FROM,     // slot source how
    SD_EDIT,     // slot how len seed
    SD_READ,     // slot how
    SD_DEL,      // slot
};
enum { NOISE = 256 }; // added to a code: other business in between, not judged
const char *op_name(int);
