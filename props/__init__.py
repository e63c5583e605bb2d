"""Specifications of the properties, one module per part of the repository."""
REGISTRY = {
    'U01': ('units', 'u01'), 'U02': ('units', 'u02'), 'U03': ('units', 'u03'), 'U04': ('units', 'u04'),
    'A01': ('astro', 'a01'), 'A02': ('astro', 'a02'),
    'T01': ('time', 't01'), 'T02': ('time', 't02'), 'T03': ('time', 't03'), 'T04': ('time', 't04'), 'T05': ('time', 't05'), 'T06': ('time', 't06'),
    'C01': ('coords', 'c01'), 'C02': ('coords', 'c02'), 'C03': ('coords', 'c03'), 'C04': ('coords', 'c04'), 'C05': ('coords', 'c05'), 'C06': ('coords', 'c06'), 'C07': ('coords', 'c07'), 'C08': ('coords', 'c08'), 'C09': ('coords', 'c09'), 'C10': ('coords', 'c10'),
    'S01': ('coords', 's01'), 'S02': ('coords', 's02'), 'S03': ('coords', 's03'),
    'F01': ('files', 'f01'), 'F02': ('files', 'f02'), 'F03': ('files', 'f03'), 'F04': ('files', 'f04'),
    'E01': ('encounter', 'e01'), 'E02': ('encounter', 'e02'), 'E03': ('encounter', 'e03'), 'E04': ('encounter', 'e04'), 'E05': ('encounter', 'e05'),
    'K01': ('schedule', 'k01'), 'K02': ('schedule', 'k02'), 'K03': ('schedule', 'k03'), 'K04': ('schedule', 'k04'), 'K05': ('schedule', 'k05'), 'K06': ('schedule', 'k06'), 'K07': ('schedule', 'k07'), 'K08': ('schedule', 'k08'), 'K09': ('schedule', 'k09'), 'K10': ('schedule', 'k10'),
    'H01': ('state', 'h01'), 'H03': ('state', 'h03'), 'H02': ('state', 'h02'), 'U08': ('units', 'u08'), 'U05': ('units', 'u05'), 'U06': ('units', 'u06'), 'U07': ('units', 'u07'),
}
# properties whose cases are independent of each other and run in parallel
PARALLEL = {'H01', 'H03', 'H02', 'E01', 'E02', 'E03', 'K01', 'K03', 'K04', 'K06', 'K07', 'K08', 'K09', 'K10'}
