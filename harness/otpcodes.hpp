// Written by tools/gen_codes.cpp: HOTP counters for secret "12345678901234567890" and SHA-1 whose value is rare.
#pragma once
#include <cstdint>
static const struct RareCode {
    int digits, zeros;
    uint64_t counter;
    uint32_t value;
} rare_codes[] = {
    {1, 0, 0u, 1284755224u},
    {1, 1, 30u, 1204026920u},
    {2, 0, 0u, 1284755224u},
    {2, 1, 24u, 1324797908u},
    {2, 2, 783u, 1111754200u},
    {3, 0, 0u, 1284755224u},
    {3, 1, 27u, 2037939082u},
    {3, 2, 261u, 1491914003u},
    {3, 3, 1248u, 1766710000u},
    {4, 0, 0u, 1284755224u},
    {4, 1, 9u, 645520489u},
    {4, 2, 1485u, 2037940097u},
    {4, 3, 1881u, 1534080008u},
    {4, 4, 1248u, 1766710000u},
    {5, 0, 0u, 1284755224u},
    {5, 1, 18u, 2071903435u},
    {5, 2, 321u, 2010700874u},
    {5, 3, 3120u, 1325600073u},
    {5, 4, 4959u, 1921100006u},
    {5, 5, 1543u, 1221800000u},
    {6, 0, 0u, 1284755224u},
    {6, 1, 30u, 1204026920u},
    {6, 2, 36u, 1164003784u},
    {6, 3, 366u, 43000866u},
    {6, 4, 26383u, 1599000066u},
    {6, 5, 226500u, 993000007u},
    {6, 6, 349495u, 378000000u},
    {7, 0, 0u, 1284755224u},
    {7, 1, 72u, 430486963u},
    {7, 2, 150u, 1230072172u},
    {7, 3, 2742u, 2080003947u},
    {7, 4, 15213u, 1840000764u},
    {7, 5, 370442u, 1290000074u},
    {7, 6, 1299963u, 1730000002u},
    {7, 7, 1290532u, 1970000000u},
    {8, 0, 0u, 1284755224u},
    {8, 1, 21u, 2105191635u},
    {8, 2, 102u, 1900629694u},
    {8, 3, 3708u, 800011204u},
    {8, 4, 53446u, 700003322u},
    {8, 5, 318927u, 1700000488u},
    {8, 6, 371561u, 2100000060u},
    {8, 7, 38495152u, 1100000008u},
    {8, 8, 32387340u, 1200000000u},
    {9, 0, 0u, 1284755224u},
    {9, 1, 18u, 2071903435u},
    {9, 2, 183u, 1007536163u},
    {9, 3, 1626u, 830105u},
    {9, 4, 10281u, 92555u},
    {9, 5, 61177u, 1000009186u},
    {9, 6, 381962u, 1000000635u},
    {9, 7, 1550839u, 2000000078u},
    {9, 8, 254639331u, 1000000004u},
    {9, 9, 1279789225u, 0u},
    {10, 0, 0u, 1284755224u},
    {10, 1, 9u, 645520489u},
    {10, 2, 54u, 46399156u},
    {10, 3, 648u, 7571970u},
    {10, 4, 1626u, 830105u},
    {10, 5, 10281u, 92555u},
    {10, 6, 732066u, 7261u},
    {10, 7, 2011430u, 835u},
    {10, 8, 55484518u, 78u},
    {10, 9, 549209910u, 2u},
    {10, 10, 1279789225u, 0u},
    {10, -1, 1279789225u, 0u},
    {10, -1, 1830010531u, 2147483647u},
};
