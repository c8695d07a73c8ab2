/* Callers of the library's file and resource functions, analysed (never run) together with the library: each uses the public
 * API the way a user would and gives back everything it was handed. Functions declared extern are interpreted by the analyser. */
#include "npy_array.h"
#include "npy_array_list.h"
#include "neuralnet.h"
#include "optimizer.h"
#include "SGD.h"
#include "RMSprop.h"
#include "adagrad.h"
#include "adam.h"
#include "logger.h"
#include "modelcheckpoint.h"
#include "earlystopping.h"
#include "activation.h"
#include <stdlib.h>
#include <stdio.h>

extern void  probe_data( const void *data, size_t n );             /* n bytes have to be there */
extern void  probe_stated( const void *data, int ndim, size_t elem_size, const size_t *shape );   /* the data of an array that states this */
extern void  probe_item( int k, const void *array, const char *name );
extern void  probe_done( void );
extern void  probe_saved_count( int n );
extern int   probe_int( void );
extern void  probe_exit( void );                                   /* runs what was registered with atexit() */
extern void  probe_layer( int i, int n_in, int n_out, const float *w, const float *b, const void *act );
extern void  probe_array( int k, const void *m, const char *data, int ndim, size_t s0, size_t s1, int typechar, int endian, size_t es, int fortran, const char *name );
extern void  probe_layers( int n );
extern void *probe_block( size_t n );                              /* memory the caller got somewhere, never NULL */
extern size_t probe_size( int least );                             /* any number >= least */
extern int   probe_char( void );
extern int   probe_bool( void );

extern void  probe_given( const void *m, const void *data, size_t n );
/* an array as a user may hold it: any type and shape, with the data its shape states */
static npy_array_t *given( int ndim )
{
    npy_array_t *m = probe_block( sizeof *m );
    size_t d;
    m->elem_size = d = probe_size( 1 );
    for( int i = 0; i < ndim; i++ ) d *= m->shape[i] = probe_size( 0 );
    m->ndim = ndim;
    m->typechar = probe_char(); m->endianness = probe_char(); m->fortran_order = probe_bool();
    m->data = probe_block( d );
    m->map_addr = NULL;
    probe_given( m, m->data, d );
    return m;
}
extern void probe_alive( void *fp );
extern void probe_got( const void *m );
/* what _read_matrix() promises for an open source: nothing and a message, or a new array that has its data (decided for the
 * function itself by the jobs that read single arrays) */
npy_array_t *probe_read( void *fp, reader_func read )
{
    probe_alive( fp );
    if( probe_bool() ){ fprintf( stderr, "no array\n" ); return NULL; }
    npy_array_t *m = given( 2 );
    m->ndim = probe_size( 0 ) & 7;
    probe_got( m );
    return m;
}
static npy_array_list_t *element( npy_array_t *m, char *name, npy_array_list_t *next )
{
    npy_array_list_t *e = probe_block( sizeof *e );
    e->array = m; e->filename = name; e->next = next;
    return e;
}

/* ------------------------------------------------------------------ arrays */
void probe_array_save( const char *fn, int ndim ){ npy_array_t *m = given( ndim ); npy_array_save( fn, m ); npy_array_free( m ); }
extern int  probe_letter( void );
extern void probe_header_is( const char *text, size_t n, int ndim, const size_t *shape, int typechar, int endian, size_t es, _Bool fortran );
void probe_header( int ndim, int fortran )
{
    npy_array_t *m = given( ndim );
    char *text = probe_block( 1034 );                              /* what npy_array_save() has for it */
    m->typechar = probe_letter(); m->fortran_order = fortran;
    size_t n = npy_array_get_header( m, text );
    probe_header_is( text, n, ndim, m->shape, m->typechar, m->endianness, m->elem_size, m->fortran_order );
}
void probe_list_save_wide( const char *fn )
{
    npy_array_list_t *l = element( given( 8 ), NULL, NULL );
    npy_array_list_save( fn, l );
    npy_array_list_free( l );
}
void probe_array_load( const char *fn )
{
    npy_array_t *m = npy_array_load( fn );
    if( m ){ probe_stated( m->data, m->ndim, m->elem_size, m->shape ); npy_array_free( m ); }
}
void probe_array_mmap( const char *fn )
{
    npy_array_t *m = npy_array_mmap( fn );
    if( m ){ probe_stated( m->data, m->ndim, m->elem_size, m->shape ); npy_array_free( m ); }
}
/* reading from an archive entry */
void probe_entry_read( void *entry )
{
    npy_array_t *m = _read_matrix( entry, &read_zip );
    if( m ){ probe_stated( m->data, m->ndim, m->elem_size, m->shape ); npy_array_free( m ); }
}
void probe_file_life( const char *fn ){ npy_array_t *m = npy_array_load( fn ); if( m ) npy_array_free( m ); }
void probe_mmap_life( const char *fn ){ npy_array_t *m = npy_array_mmap( fn ); if( m ) npy_array_free( m ); }
/* ------------------------------------------------------------------ lists */
void probe_list_load( const char *fn )
{
    npy_array_list_t *l = npy_array_list_load( fn );
    int k = 0;
    for( npy_array_list_t *it = l; it; it = it->next ){ probe_item( k, it->array, it->filename ); k++; }
    probe_done();
    if( l ) npy_array_list_free( l );
}
void probe_list_life( const char *fn ){ npy_array_list_t *l = npy_array_list_load( fn ); if( l ) npy_array_list_free( l ); }
/* a list of n arrays built by the user, with or without names */
static npy_array_list_t *build( int n, int named )
{
    npy_array_list_t *l = NULL;
    for( int i = n; i-- > 0; ) l = element( given( i % 2 + 1 ), NULL, l );
    if( named ) for( npy_array_list_t *e = l; e; e = e->next ){ e->filename = probe_block( 4 ); e->filename[0] = 'x'; e->filename[1] = 0; }
    return l;
}
void probe_list_save( const char *fn, int n, int named )
{
    npy_array_list_t *l = build( n, named );
    int r = npy_array_list_save( fn, l );
    probe_saved_count( r );
    npy_array_list_free( l );
}
void probe_list_compressed( const char *fn, int n, int comp )
{
    npy_array_list_t *l = build( n, 1 );
    int r = npy_array_list_save_compressed( fn, l, comp, 0 );
    probe_saved_count( r );
    npy_array_list_free( l );
}
/* lists built with append and prepend own their arrays */
void probe_list_append( const char *name, int k )
{
    npy_array_t *a = probe_block( sizeof *a ), *b = probe_block( sizeof *b );
    a->data = probe_block( 16 ); a->map_addr = NULL;
    b->data = probe_block( 16 ); b->map_addr = NULL;
    npy_array_list_t *l = npy_array_list_append( NULL, a, "%s_%d", name, k );
    if( !l ){ npy_array_free( a ); npy_array_free( b ); return; }
    l = npy_array_list_append( l, b, "b" );
    if( npy_array_list_length( l ) != 2 ) npy_array_free( b );
    npy_array_list_free( l );
}
void probe_list_prepend( const char *name, int k )
{
    npy_array_t *a = probe_block( sizeof *a ), *b = probe_block( sizeof *b );
    a->data = probe_block( 16 ); a->map_addr = NULL;
    b->data = probe_block( 16 ); b->map_addr = NULL;
    npy_array_list_t *l = npy_array_list_prepend( NULL, a, "%s", name );
    if( !l ){ npy_array_free( a ); npy_array_free( b ); return; }
    l = npy_array_list_prepend( l, b, "b_%d", k );
    if( npy_array_list_length( l ) != 2 ) npy_array_free( b );
    npy_array_list_free( l );
}
/* ------------------------------------------------------------------ networks */
extern void *probe_static( size_t n );                             /* memory the caller keeps */
extern int   probe_count( void );                                  /* any positive number */
extern void *probe_function( void );
extern void  probe_given_layer( int i, int n_in, int n_out, const float *w, const float *b, const void *act );
/* a network of n layers as neuralnet_create() makes them */
static neuralnet_t *network( int n )
{
    neuralnet_t *nn = probe_static( sizeof *nn );
    int width = probe_count();
    nn->n_layers = n;
    nn->layer = probe_static( n * sizeof *nn->layer );
    nn->loss = probe_function();
    for( int i = 0; i < n; i++ ){
        int out = probe_count();
        nn->layer[i].n_input = width; nn->layer[i].n_output = out;
        nn->layer[i].weight = probe_static( (size_t) width * out * sizeof(float) );
        nn->layer[i].bias   = probe_static( (size_t) out * sizeof(float) );
        nn->layer[i].activation_func = probe_function();
        probe_given_layer( i, width, out, nn->layer[i].weight, nn->layer[i].bias, (const void*) nn->layer[i].activation_func );
        width = out;
    }
    return nn;
}
void probe_net_life( int n, int *sizes, char **act ){ neuralnet_t *nn = neuralnet_create( n, sizes, act ); if( nn ) neuralnet_free( nn ); }
void probe_net_read( const char *fn ){ neuralnet_t *nn = neuralnet_load( fn ); if( nn ) neuralnet_free( nn ); }
void probe_net_write( const char *fn, int n ){ neuralnet_save( network( n ), fn ); }
void probe_net_load( const char *fn )
{
    neuralnet_t *nn = neuralnet_load( fn );
    if( nn ){
        for( int i = 0; i < nn->n_layers; i++ )
            probe_layer( i, nn->layer[i].n_input, nn->layer[i].n_output, nn->layer[i].weight, nn->layer[i].bias, (const void*) nn->layer[i].activation_func );
        probe_layers( nn->n_layers );
        neuralnet_free( nn );
    }
}
void probe_net_save( const neuralnet_t *nn, const char *fn, int epoch ){ neuralnet_save( nn, fn, epoch ); }
void probe_net_save_plain( const neuralnet_t *nn, const char *fn ){ neuralnet_save( nn, fn ); }
/* stands for npy_array_list_load(): any list of n arrays that reading archives may give */
extern size_t probe_total( const void *m, int ndim, size_t elem_size, size_t s0, size_t s1 );
extern void   probe_loaded_array( int k, int ndim, size_t s0, size_t s1, int typechar, int endian, size_t es, int fortran, const char *data );
extern int    probe_dims( int k );
extern int    probe_endian( int k );
extern _Bool  probe_order( int k );
extern size_t probe_width( int k );
extern int    probe_type( int k );                                 /* the type of array k */
extern size_t probe_rows( int k );                                 /* its first dimension */
npy_array_list_t *probe_loaded( const char *fn, int n )
{
    npy_array_list_t *l = NULL;
    (void) fn;
    for( int k = n; k-- > 0; ){
        npy_array_t *m = probe_block( sizeof *m );
        m->shape[0] = probe_rows( k );
        for( int i = 1; i < 8; i++ ) m->shape[i] = probe_size( 0 );
        m->ndim = probe_dims( k );
        m->elem_size = probe_width( k );
        m->typechar = probe_type( k ); m->endianness = probe_endian( k ); m->fortran_order = probe_order( k );
        m->map_addr = NULL;
        m->data = probe_block( probe_total( m, m->ndim, m->elem_size, m->shape[0], m->shape[1] ));
        probe_loaded_array( k, m->ndim, m->shape[0], m->shape[1], m->typechar, m->endianness, m->elem_size, m->fortran_order, m->data );
        l = element( m, NULL, l );
    }
    return l;
}
/* what saving a network of n layers hands to the archive writer, read back (the names have any length) */
npy_array_list_t *probe_reloaded( const char *fn, int n )
{
    npy_array_list_t *l = NULL, **tail = &l;
    (void) fn;
    size_t width = probe_count();
    for( int k = 0; k < 2 * n + 1; k++ ){
        npy_array_t *m = probe_block( sizeof *m );
        for( int i = 0; i < 8; i++ ) m->shape[i] = 0;
        m->elem_size = 4; m->typechar = 'f'; m->endianness = '<'; m->fortran_order = 0; m->map_addr = NULL;
        if( k == 2 * n ){
            m->ndim = 1; m->shape[0] = n; m->elem_size = probe_size( 1 ); m->typechar = 'S'; m->endianness = '|';
            m->data = probe_block( m->elem_size * n );
        } else if( k % 2 == 0 ){
            size_t out = probe_count();
            m->ndim = 2; m->shape[0] = width; m->shape[1] = out;
            m->data = probe_block( width * out * sizeof(float) );
            width = out;
        } else {
            m->ndim = 1; m->shape[0] = width;
            m->data = probe_block( width * sizeof(float) );
        }
        probe_loaded_array( k, m->ndim, m->shape[0], m->shape[1], m->typechar, m->endianness, m->elem_size, m->fortran_order, m->data );
        *tail = element( m, NULL, NULL );
        tail = &(*tail)->next;
    }
    return l;
}
extern void probe_none( void );
void probe_net_load_back( const char *fn )
{
    neuralnet_t *n = neuralnet_load( fn );
    if( !n ){ probe_none(); return; }
    for( int i = 0; i < n->n_layers; i++ )
        probe_layer( i, n->layer[i].n_input, n->layer[i].n_output, n->layer[i].weight, n->layer[i].bias, (const void*) n->layer[i].activation_func );
    probe_layers( n->n_layers );
    neuralnet_free( n );
}
/* stands for npy_array_list_save(): what is handed over to be written */
int probe_saved( const char *fn, npy_array_list_t *l )
{
    int k = 0;
    (void) fn;
    for( npy_array_list_t *it = l; it; it = it->next ){
        const npy_array_t *m = it->array;
        probe_array( k, m, m->data, m->ndim, m->shape[0], m->shape[1], m->typechar, m->endianness, m->elem_size, m->fortran_order, it->filename );
        k++;
    }
    probe_done();
    return k;
}

/* ------------------------------------------------------------------ optimizers and callbacks */
#define nn network( 2 )
#define EPOCH( opt, nv ) do { float res[16]; \
    optimizer_run_epoch( opt, n, X, Y, nv, X, Y, res ); \
    optimizer_run_epoch( opt, m, X, Y, nv, X, Y, res ); \
    optimizer_free( opt ); } while(0)
void probe_sgd( unsigned n, unsigned m, const float *X, const float *Y )
{
    optimizer_t *o = OPTIMIZER( SGD_new( nn, OPTIMIZER_PROPERTIES( .shuffle = true, .progress = NULL ), SGD_PROPERTIES( .learning_rate = 0.1f )));
    if( o ) EPOCH( o, 0 );
}
void probe_rmsprop( unsigned n, unsigned m, const float *X, const float *Y )
{
    optimizer_t *o = OPTIMIZER( RMSprop_new( nn, OPTIMIZER_PROPERTIES( .shuffle = true, .progress = NULL ), RMSPROP_PROPERTIES( .learning_rate = 0.1f )));
    if( o ) EPOCH( o, 0 );
}
void probe_adagrad( unsigned n, unsigned m, const float *X, const float *Y )
{
    optimizer_t *o = OPTIMIZER( adagrad_new( nn, OPTIMIZER_PROPERTIES( .shuffle = true, .progress = NULL ), ADAGRAD_PROPERTIES( .learning_rate = 0.1f )));
    if( o ) EPOCH( o, 0 );
}
void probe_adam( unsigned n, unsigned m, const float *X, const float *Y )
{
    optimizer_t *o = OPTIMIZER( adam_new( nn, OPTIMIZER_PROPERTIES( .shuffle = true, .progress = NULL ), ADAM_PROPERTIES( .learning_rate = 0.1f )));
    if( o ) EPOCH( o, 0 );
}
#undef nn
/* an optimizer with so many metrics, as far as callbacks look at it */
static optimizer_t *probe_optimizer( int n_metrics )
{
    optimizer_t *o = probe_static( sizeof *o );
    o->metrics = probe_static( (n_metrics + 1) * sizeof *o->metrics );
    for( int i = 0; i < n_metrics; i++ ) o->metrics[i] = (metric_func) probe_function();
    o->metrics[n_metrics] = NULL;
    return o;
}
void probe_logger( const char *fn, int n_metrics, int valid, const float *results )
{
    optimizer_t *opt = probe_optimizer( n_metrics );
    logger_t *l = logger_new( LOGGER_SETTINGS( .filename = fn ));
    if( !l ) return;
    callback_run( CALLBACK( l ), opt, results, valid );
    callback_run( CALLBACK( l ), opt, results, valid );
    probe_done();
    callback_free( CALLBACK( l ));
}
extern void probe_epoch( const void *logger );
void probe_logger_start( const char *fn, int first )
{
    logger_config cfg = { .epoch_count = first, .filename = fn, .no_stdout = true };
    logger_t *l = logger_new( &cfg );
    if( !l ) return;
    probe_epoch( l );
    callback_free( CALLBACK( l ));
}
void probe_checkpoint( const char *fn, const float *results, int idx )
{
    optimizer_t *opt = probe_optimizer( 1 );
    opt->nn = network( 1 );
    modelcheckpoint_t *c = modelcheckpoint_new( MODELCHECKPOINT_SETTINGS( .filename = fn, .monitor_idx = idx ));
    if( !c ) return;
    callback_run( CALLBACK( c ), opt, results, true );
    callback_free( CALLBACK( c ));
}
void probe_dynamic( const char *name )
{
    activation_func f = get_activation_func( name );
    activation_func g = get_activation_func( name );
    if( f == g ) probe_int();
    probe_exit(); probe_exit();
}
