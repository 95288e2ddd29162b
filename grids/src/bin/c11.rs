//! C11: where code starts and where its captured state is placed.

#![allow(static_mut_refs, dead_code)]

use grids::{drive, Case};

macro_rules! aligns {
    ($($n:ident $a:literal)*) => { $(#[repr(align($a))] pub struct $n;)* };
}
aligns!(A1 1 A2 2 A4 4 A8 8 A16 16 A32 32 A64 64 A128 128 A256 256 A512 512 A1024 1024 A2048 2048 A4096 4096);

macro_rules! list {
    () => {
        sizes!(A1 [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27])
    };
}
#[path = "c11/imp.rs"]
mod p0;

macro_rules! list {
    () => {
        sizes!(A1 [28 29 30 31 32 33 34 35 36 37 38 39 40 41 47 48 49 63 64 65 100 127 128 129 240 255 256 257])
    };
}
#[path = "c11/imp.rs"]
mod p1;

macro_rules! list {
    () => {
        sizes!(A1 [500 511 512 513 767 1000 1007 1008 1009 1010 1011 1015 1016 1017 1018 1019 1020 1021 1022 1023 1024 1025 1026 1027 1028 1029 1030 1031])
    };
}
#[path = "c11/imp.rs"]
mod p2;

macro_rules! list {
    () => {
        sizes!(A1 [1032 1033 1034 1035 1036 1037 1038 1039 1040 1041 1042 1043 1056 1088 1100 2000 2048 3000 4000 4096 5000 8192 9000])
    };
}
#[path = "c11/imp.rs"]
mod p3;

macro_rules! list {
    () => {
        sizes!(A2 [0 2 4 6 8 10 12 14 16 18 20 22 24 26 28 30 32 34 36 38 40 42 44 46 48 50 52 54])
    };
}
#[path = "c11/imp.rs"]
mod p4;

macro_rules! list {
    () => {
        sizes!(A2 [56 58 60 62 64 66 68 128 256 512 1000 1008 1010 1016 1018 1020 1022 1024 1026 1028 1030 1032 1034 1036 1038 1040 1042 1056])
    };
}
#[path = "c11/imp.rs"]
mod p5;

macro_rules! list {
    () => {
        sizes!(A2 [1088 1100 2000 2048 3000 4000 4096 5000 8192 9000])
    };
}
#[path = "c11/imp.rs"]
mod p6;

macro_rules! list {
    () => {
        sizes!(A4 [0 4 8 12 16 20 24 28 32 36 40 44 48 52 56 60 64 68 128 256 512 1000 1008 1016 1020 1024 1028 1032])
    };
}
#[path = "c11/imp.rs"]
mod p7;

macro_rules! list {
    () => {
        sizes!(A4 [1036 1040 1056 1088 1100 2000 2048 3000 4000 4096 5000 8192 9000])
    };
}
#[path = "c11/imp.rs"]
mod p8;

macro_rules! list {
    () => {
        sizes!(A8 [0 8 16 24 32 40 48 56 64 128 256 512 1000 1008 1016 1024 1032 1040 1056 1088 2000 2048 3000 4000 4096 5000 8192 9000])
    };
}
#[path = "c11/imp.rs"]
mod p9;

macro_rules! list {
    () => {
        sizes!(A16 [0 16 32 48 64 128 256 512 1008 1024 1040 1056 1088 2000 2048 4000 4096 8192])
    };
}
#[path = "c11/imp.rs"]
mod p10;

macro_rules! list {
    () => {
        sizes!(A32 [0 32 64 96 128 192 256 384 512 640 768 896 960 992 1024 1056 1088 1152 1280 1536 2048 4096])
    };
}
#[path = "c11/imp.rs"]
mod p11;

macro_rules! list {
    () => {
        sizes!(A64 [0 64 128 192 256 384 512 640 768 896 960 1024 1088 1152 1280 1536 2048 4096])
    };
}
#[path = "c11/imp.rs"]
mod p12;

macro_rules! list {
    () => {
        sizes!(A128 [0 128 256 384 512 640 768 896 1024 1152 1280 1536 2048 4096] A256 [0 256 512 768 1024 1280 1536 2048 4096])
    };
}
#[path = "c11/imp.rs"]
mod p13;

macro_rules! list {
    () => {
        sizes!(A512 [0 512 1024 1536 2048 4096] A1024 [0 1024 2048 4096] A2048 [0 2048] A4096 [0 4096 8192])
    };
}
#[path = "c11/imp.rs"]
mod p14;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [42 43 44 45 46 50 51 52 53 54 55 56 57 58 59 60 61 62 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 101 102 103 104 105 106 107 108])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p15;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p16;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p17;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [232 233 234 235 236 237 238 239 241 242 243 244 245 246 247 248 249 250 251 252 253 254 258 259 260 261 262 263 264 265 266 267 268 269 270 271 272 273 274 275 276 277 278 279 280 281 282 283 284 285 286 287 288 289 290 291 292 293 294 295])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p18;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [296 297 298 299 300 301 302 303 304 305 306 307 308 309 310 311 312 313 314 315 316 317 318 319 320 321 322 323 324 325 326 327 328 329 330 331 332 333 334 335 336 337 338 339 340 341 342 343 344 345 346 347 348 349 350 351 352 353 354 355])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p19;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [356 357 358 359 360 361 362 363 364 365 366 367 368 369 370 371 372 373 374 375 376 377 378 379 380 381 382 383 384 385 386 387 388 389 390 391 392 393 394 395 396 397 398 399 400 401 402 403 404 405 406 407 408 409 410 411 412 413 414 415])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p20;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [416 417 418 419 420 421 422 423 424 425 426 427 428 429 430 431 432 433 434 435 436 437 438 439 440 441 442 443 444 445 446 447 448 449 450 451 452 453 454 455 456 457 458 459 460 461 462 463 464 465 466 467 468 469 470 471 472 473 474 475])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p21;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [476 477 478 479 480 481 482 483 484 485 486 487 488 489 490 491 492 493 494 495 496 497 498 499 501 502 503 504 505 506 507 508 509 510 514 515 516 517 518 519 520 521 522 523 524 525 526 527 528 529 530 531 532 533 534 535 536 537 538 539])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p22;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [540 541 542 543 544 545 546 547 548 549 550 551 552 553 554 555 556 557 558 559 560 561 562 563 564 565 566 567 568 569 570 571 572 573 574 575 576 577 578 579 580 581 582 583 584 585 586 587 588 589 590 591 592 593 594 595 596 597 598 599])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p23;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [600 601 602 603 604 605 606 607 608 609 610 611 612 613 614 615 616 617 618 619 620 621 622 623 624 625 626 627 628 629 630 631 632 633 634 635 636 637 638 639 640 641 642 643 644 645 646 647 648 649 650 651 652 653 654 655 656 657 658 659])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p24;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [660 661 662 663 664 665 666 667 668 669 670 671 672 673 674 675 676 677 678 679 680 681 682 683 684 685 686 687 688 689 690 691 692 693 694 695 696 697 698 699 700 701 702 703 704 705 706 707 708 709 710 711 712 713 714 715 716 717 718 719])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p25;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [720 721 722 723 724 725 726 727 728 729 730 731 732 733 734 735 736 737 738 739 740 741 742 743 744 745 746 747 748 749 750 751 752 753 754 755 756 757 758 759 760 761 762 763 764 765 766 768 769 770 771 772 773 774 775 776 777 778 779 780])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p26;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [781 782 783 784 785 786 787 788 789 790 791 792 793 794 795 796 797 798 799 800 801 802 803 804 805 806 807 808 809 810 811 812 813 814 815 816 817 818 819 820 821 822 823 824 825 826 827 828 829 830 831 832 833 834 835 836 837 838 839 840])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p27;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [841 842 843 844 845 846 847 848 849 850 851 852 853 854 855 856 857 858 859 860 861 862 863 864 865 866 867 868 869 870 871 872 873 874 875 876 877 878 879 880 881 882 883 884 885 886 887 888 889 890 891 892 893 894 895 896 897 898 899 900])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p28;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [901 902 903 904 905 906 907 908 909 910 911 912 913 914 915 916 917 918 919 920 921 922 923 924 925 926 927 928 929 930 931 932 933 934 935 936 937 938 939 940 941 942 943 944 945 946 947 948 949 950 951 952 953 954 955 956 957 958 959 960])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p29;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [961 962 963 964 965 966 967 968 969 970 971 972 973 974 975 976 977 978 979 980 981 982 983 984 985 986 987 988 989 990 991 992 993 994 995 996 997 998 999 1001 1002 1003 1004 1005 1006 1012 1013 1014 1044 1045 1046 1047 1048 1049 1050 1051 1052 1053 1054 1055])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p30;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A1 [1057 1058 1059 1060 1061 1062 1063 1064 1065 1066 1067 1068 1069 1070 1071 1072 1073 1074 1075 1076 1077 1078 1079 1080 1081 1082 1083 1084 1085 1086 1087 1089 1090 1091 1092 1093 1094 1095 1096 1097 1098 1099])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p31;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [70 72 74 76 78 80 82 84 86 88 90 92 94 96 98 100 102 104 106 108 110 112 114 116 118 120 122 124 126 130 132 134 136 138 140 142 144 146 148 150 152 154 156 158 160 162 164 166 168 170 172 174 176 178 180 182 184 186 188 190])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p32;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [192 194 196 198 200 202 204 206 208 210 212 214 216 218 220 222 224 226 228 230 232 234 236 238 240 242 244 246 248 250 252 254 258 260 262 264 266 268 270 272 274 276 278 280 282 284 286 288 290 292 294 296 298 300 302 304 306 308 310 312])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p33;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [314 316 318 320 322 324 326 328 330 332 334 336 338 340 342 344 346 348 350 352 354 356 358 360 362 364 366 368 370 372 374 376 378 380 382 384 386 388 390 392 394 396 398 400 402 404 406 408 410 412 414 416 418 420 422 424 426 428 430 432])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p34;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [434 436 438 440 442 444 446 448 450 452 454 456 458 460 462 464 466 468 470 472 474 476 478 480 482 484 486 488 490 492 494 496 498 500 502 504 506 508 510 514 516 518 520 522 524 526 528 530 532 534 536 538 540 542 544 546 548 550 552 554])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p35;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [556 558 560 562 564 566 568 570 572 574 576 578 580 582 584 586 588 590 592 594 596 598 600 602 604 606 608 610 612 614 616 618 620 622 624 626 628 630 632 634 636 638 640 642 644 646 648 650 652 654 656 658 660 662 664 666 668 670 672 674])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p36;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [676 678 680 682 684 686 688 690 692 694 696 698 700 702 704 706 708 710 712 714 716 718 720 722 724 726 728 730 732 734 736 738 740 742 744 746 748 750 752 754 756 758 760 762 764 766 768 770 772 774 776 778 780 782 784 786 788 790 792 794])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p37;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [796 798 800 802 804 806 808 810 812 814 816 818 820 822 824 826 828 830 832 834 836 838 840 842 844 846 848 850 852 854 856 858 860 862 864 866 868 870 872 874 876 878 880 882 884 886 888 890 892 894 896 898 900 902 904 906 908 910 912 914])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p38;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [916 918 920 922 924 926 928 930 932 934 936 938 940 942 944 946 948 950 952 954 956 958 960 962 964 966 968 970 972 974 976 978 980 982 984 986 988 990 992 994 996 998 1002 1004 1006 1012 1014 1044 1046 1048 1050 1052 1054 1058 1060 1062 1064 1066 1068 1070])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p39;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A2 [1072 1074 1076 1078 1080 1082 1084 1086 1090 1092 1094 1096 1098])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p40;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A4 [72 76 80 84 88 92 96 100 104 108 112 116 120 124 132 136 140 144 148 152 156 160 164 168 172 176 180 184 188 192 196 200 204 208 212 216 220 224 228 232 236 240 244 248 252 260 264 268 272 276 280 284 288 292 296 300 304 308 312 316])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p41;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A4 [320 324 328 332 336 340 344 348 352 356 360 364 368 372 376 380 384 388 392 396 400 404 408 412 416 420 424 428 432 436 440 444 448 452 456 460 464 468 472 476 480 484 488 492 496 500 504 508 516 520 524 528 532 536 540 544 548 552 556 560])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p42;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A4 [564 568 572 576 580 584 588 592 596 600 604 608 612 616 620 624 628 632 636 640 644 648 652 656 660 664 668 672 676 680 684 688 692 696 700 704 708 712 716 720 724 728 732 736 740 744 748 752 756 760 764 768 772 776 780 784 788 792 796 800])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p43;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A4 [804 808 812 816 820 824 828 832 836 840 844 848 852 856 860 864 868 872 876 880 884 888 892 896 900 904 908 912 916 920 924 928 932 936 940 944 948 952 956 960 964 968 972 976 980 984 988 992 996 1004 1012 1044 1048 1052 1060 1064 1068 1072 1076 1080])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p44;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A4 [1084 1092 1096])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p45;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A8 [72 80 88 96 104 112 120 136 144 152 160 168 176 184 192 200 208 216 224 232 240 248 264 272 280 288 296 304 312 320 328 336 344 352 360 368 376 384 392 400 408 416 424 432 440 448 456 464 472 480 488 496 504 520 528 536 544 552 560 568])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p46;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A8 [576 584 592 600 608 616 624 632 640 648 656 664 672 680 688 696 704 712 720 728 736 744 752 760 768 776 784 792 800 808 816 824 832 840 848 856 864 872 880 888 896 904 912 920 928 936 944 952 960 968 976 984 992 1048 1064 1072 1080 1096])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p47;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A16 [80 96 112 144 160 176 192 208 224 240 272 288 304 320 336 352 368 384 400 416 432 448 464 480 496 528 544 560 576 592 608 624 640 656 672 688 704 720 736 752 768 784 800 816 832 848 864 880 896 912 928 944 960 976 992 1072])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p48;

#[cfg(feature = "deep")]
macro_rules! list {
    () => {
        sizes!(A32 [160 224 288 320 352 416 448 480 544 576 608 672 704 736 800 832 864 928] A64 [320 448 576 704 832])
    };
}
#[cfg(feature = "deep")]
#[path = "c11/imp.rs"]
mod p49;

fn main() {
    let mut v: Vec<Case> = vec![];
    p0::cases(&mut v);
    p1::cases(&mut v);
    p2::cases(&mut v);
    p3::cases(&mut v);
    p4::cases(&mut v);
    p5::cases(&mut v);
    p6::cases(&mut v);
    p7::cases(&mut v);
    p8::cases(&mut v);
    p9::cases(&mut v);
    p10::cases(&mut v);
    p11::cases(&mut v);
    p12::cases(&mut v);
    p13::cases(&mut v);
    p14::cases(&mut v);
    #[cfg(feature = "deep")]
    p15::cases(&mut v);
    #[cfg(feature = "deep")]
    p16::cases(&mut v);
    #[cfg(feature = "deep")]
    p17::cases(&mut v);
    #[cfg(feature = "deep")]
    p18::cases(&mut v);
    #[cfg(feature = "deep")]
    p19::cases(&mut v);
    #[cfg(feature = "deep")]
    p20::cases(&mut v);
    #[cfg(feature = "deep")]
    p21::cases(&mut v);
    #[cfg(feature = "deep")]
    p22::cases(&mut v);
    #[cfg(feature = "deep")]
    p23::cases(&mut v);
    #[cfg(feature = "deep")]
    p24::cases(&mut v);
    #[cfg(feature = "deep")]
    p25::cases(&mut v);
    #[cfg(feature = "deep")]
    p26::cases(&mut v);
    #[cfg(feature = "deep")]
    p27::cases(&mut v);
    #[cfg(feature = "deep")]
    p28::cases(&mut v);
    #[cfg(feature = "deep")]
    p29::cases(&mut v);
    #[cfg(feature = "deep")]
    p30::cases(&mut v);
    #[cfg(feature = "deep")]
    p31::cases(&mut v);
    #[cfg(feature = "deep")]
    p32::cases(&mut v);
    #[cfg(feature = "deep")]
    p33::cases(&mut v);
    #[cfg(feature = "deep")]
    p34::cases(&mut v);
    #[cfg(feature = "deep")]
    p35::cases(&mut v);
    #[cfg(feature = "deep")]
    p36::cases(&mut v);
    #[cfg(feature = "deep")]
    p37::cases(&mut v);
    #[cfg(feature = "deep")]
    p38::cases(&mut v);
    #[cfg(feature = "deep")]
    p39::cases(&mut v);
    #[cfg(feature = "deep")]
    p40::cases(&mut v);
    #[cfg(feature = "deep")]
    p41::cases(&mut v);
    #[cfg(feature = "deep")]
    p42::cases(&mut v);
    #[cfg(feature = "deep")]
    p43::cases(&mut v);
    #[cfg(feature = "deep")]
    p44::cases(&mut v);
    #[cfg(feature = "deep")]
    p45::cases(&mut v);
    #[cfg(feature = "deep")]
    p46::cases(&mut v);
    #[cfg(feature = "deep")]
    p47::cases(&mut v);
    #[cfg(feature = "deep")]
    p48::cases(&mut v);
    #[cfg(feature = "deep")]
    p49::cases(&mut v);
    drive(
        "C11",
        "every listed size x alignment of captured state x every base offset modulo max(64, alignment) x {unstarted, run, trap closure, other stack, parent stack in three contexts, default stack}; non-trivial: the captured state is not empty",
        v,
    );
}
