# property -> "group profile..."; sourced by build.sh and run.sh
group_of() {
  case "$1" in
    C01|C02) echo wire;;
    C03|C04) echo hostile;;
    C05) echo io;;
    C06|C07) echo json;;
    C08|C09|C10) echo text;;
    C11) echo arith;;
    C12|C13|C14|C15|C16) echo ids;;
    C17|C18|C19) echo tree;;
    C20|C21|C22|C23|C32) echo rules;;
    C24|C25|C27) echo keys;;
    C26) echo derive;;
    C28) echo sched;;
    C30) echo pure;;
    C29) echo compact;;
    C31) echo equal;;
    C33) echo flow;;
    *) return 1;;
  esac
}
profiles_of() {
  case "$1" in
    C10|C11|C20|C21|C22|C23|C27|C32) echo checked wrapping;;
    C28) echo checked real;;
    *) echo checked;;
  esac
}
ALL_PROPS="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33"
