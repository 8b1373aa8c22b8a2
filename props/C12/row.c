//@proof measure unwind=1 covers=row_measure
//@proof header unwind=1 covers=row_init,row_size,row_at,row_set,row_set_null,row_data,row_measure
//@proof header_wide unwind=1 covers=row_init,row_size,row_at,row_set,row_data,row_measure
//@rewrite (uint16_t columns;\s+uint8_t data\[)\] ==> \g<1>896]
//@rewrite sizeof\(Row\) ==> __builtin_offsetof(Row, data)
#include <vf.h>
#include <amelie_runtime>
#include <amelie_row.h>
#include <vf_env.h>

/* size arithmetic: for every number of columns and every payload the row
 * header can address (sizes are int, as everywhere in the row layer) */
VF_PROOF(measure)
{
	vf_init();
	int columns = vf_range(0, UINT16_MAX);
	int data    = vf_range(0, INT32_MAX - 4 * 65536 - 64);
	int factor  = 77;
	int64_t size = row_measure(columns, data, &factor);
	VF_REACH("measure");
	VF_ENSURES(factor == 0 || factor == 1 || factor == 3, "row: size factor is one of the three header forms");
	int64_t width = factor + 1;
	VF_ENSURES(size == (int64_t)sizeof(Row) + (int64_t)(1 + columns) * width + data, "row: size is header, index and payload");
	/* every offset and the size itself fit the chosen width */
	VF_ENSURES(size <= (factor == 0 ? UINT8_MAX : factor == 1 ? (int64_t)UINT16_MAX : (int64_t)UINT32_MAX), "row: size fits the header form");
}

/* the header and the column index of a row: what is set is what is read,
 * columns are independent, payload is never touched, everything stays in
 * the measured size */
#define BODY 900
static inline void header(int columns, int data)
{
#ifdef VF_CBMC
	static Row body;
#else
	static uint8_t body[BODY] __attribute__((aligned(8)));
#endif
	uint8_t* buf = (uint8_t*)&body;
	int factor;
	int size = row_measure(columns, data, &factor);
	VF_REQUIRES(size <= BODY);
	Row* row = (Row*)buf;
	/* memory which was in use before */
	row->is_delete = vf_bool();
	row->size_factor = vf_range(0, 3);
	row_init(row, columns, factor, size);
	VF_ENSURES(row_size(row) == (uint32_t)size, "row: size is kept");
	VF_ENSURES(! row->is_delete, "row: a new row is no delete mark");
	uint8_t* at = row_data(row, columns);
	VF_ENSURES(at >= buf && at + data == buf + size, "row: payload area is the rest of the row");

	/* a payload byte and a column slot at arbitrary places */
	int b = vf_range(0, BODY - 1);
	VF_REQUIRES(b < data);
	at[b] = 0x5A;
	int c1 = vf_range(0, UINT16_MAX), c2 = vf_range(0, UINT16_MAX);
	VF_REQUIRES(c1 < columns && c2 < columns && c1 != c2);
	int o1 = vf_range(1, BODY - 1), o2 = vf_range(1, BODY - 1);
	VF_REQUIRES(o1 < size && o2 < size);
	bool null1 = vf_bool();
	if (null1)
		row_set_null(row, c1);
	else
		row_set(row, c1, o1);
	row_set(row, c2, o2);
	VF_REACH("row header");
	VF_ENSURES(row_at(row, c1) == (null1 ? NULL : buf + o1), "row: a column reads back as it was set");
	VF_ENSURES(row_at(row, c2) == buf + o2, "row: columns are independent");
	VF_ENSURES(row_size(row) == (uint32_t)size, "row: setting a column keeps the size");
	VF_ENSURES(at[b] == 0x5A, "row: setting a column keeps the payload");
	/* columns added after the row was written read as null */
	int c3 = vf_range(0, INT32_MAX);
	if (c3 >= columns)
		VF_ENSURES(row_at(row, c3) == NULL, "row: a column the row does not have is null");
}
VF_PROOF(header)
{
	vf_init();
	header(vf_range(2, 100), vf_range(1, 500));
}

/* four byte offsets: a row larger than 64 KB (the payload is not
 * materialised, only its offsets) */
VF_PROOF(header_wide)
{
	vf_init();
#ifdef VF_CBMC
	static Row body;
#else
	static uint8_t body[BODY] __attribute__((aligned(8)));
#endif
	uint8_t* buf = (uint8_t*)&body;
	int columns = vf_range(2, 40);
	int data = vf_range(70000, 1 << 30);
	int factor;
	int size = row_measure(columns, data, &factor);
	Row* row = (Row*)buf;
	row_init(row, columns, factor, size);
	int c1 = vf_range(0, 39), c2 = vf_range(0, 39);
	VF_REQUIRES(c1 < columns && c2 < columns && c1 != c2);
	int o1 = vf_range(1, 1 << 30), o2 = vf_range(1, 1 << 30);
	row_set(row, c1, o1);
	row_set(row, c2, o2);
	VF_REACH("wide row");
	VF_ENSURES((uintptr_t)row_at(row, c1) - (uintptr_t)buf == (uintptr_t)o1 &&
	           (uintptr_t)row_at(row, c2) - (uintptr_t)buf == (uintptr_t)o2, "wide row: columns read back");
	VF_ENSURES(row_size(row) == (uint32_t)size, "wide row: size is kept");
	VF_ENSURES((uint8_t*)row_data(row, columns) == buf + sizeof(Row) + 4 * (1 + columns), "wide row: payload follows the index");
}
